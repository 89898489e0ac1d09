From 097359dbf59a19b131736a70c5b92b894cea1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 01/58] fix: small_vector: revert to static when the size
 equals the static capacity

---
 include/itlib/small_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 30992db..f6f7fc5 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -512,14 +512,14 @@ public:
     {
         const auto s = size();
 
-        if (s == m_capacity) return false; // we're at max
         if (is_static()) return false; // can't shrink static buf
+        if (s > StaticCapacity && s == m_capacity) return false; // we're at max
 
         auto old_begin = m_begin;
         auto old_end = m_end;
         auto old_cap = m_capacity;
 
-        if (s < StaticCapacity)
+        if (s <= StaticCapacity)
         {
             // revert to static capacity
             m_begin = m_end = static_begin_ptr();
-- 
2.43.0


From 04fe16958e748916847899ae48e2c9dcf3f5ce54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 02/58] fix: small_vector: inserting nothing must not touch the
 elements

---
 include/itlib/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index f6f7fc5..bd102db 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -762,6 +762,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end);
 
+        if (num == 0) return position; // no hole, so no element should move
+
         const auto s = size();
         const auto cdr = choose_data(s + num);
 
-- 
2.43.0


From 3c4ed11842b65b17618fa8a03f04fe8c3635582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 03/58] fix: small_vector: erasing an empty range must not
 touch the elements

---
 include/itlib/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index bd102db..89385a2 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -827,6 +827,8 @@ private:
 
         I_ITLIB_SMALL_VECTOR_OUT_OF_RANGE_IF(position < m_begin || position > m_end || position + num > m_end);
 
+        if (num == 0) return position; // nothing to erase, so no element should move
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 35e9294c27c5853b5ae0b9d772346a9ac98502db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 04/58] fix: small_vector: max_size() doesn't compile when used

---
 include/itlib/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 89385a2..b60ab88 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -466,7 +466,7 @@ public:
 
     size_t max_size() const noexcept
     {
-        return atraits::max_size();
+        return atraits::max_size(get_alloc());
     }
 
     void reserve(size_type new_cap)
-- 
2.43.0


From 2c14ca6cc4851388f435251da09eb7084fff0158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:03 +0000
Subject: [PATCH 05/58] fix: small_vector: adding elements within the reserved
 capacity must not revert to static

---
 include/itlib/small_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index b60ab88..6688ef0 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -765,7 +765,8 @@ private:
         if (num == 0) return position; // no hole, so no element should move
 
         const auto s = size();
-        const auto cdr = choose_data(s + num);
+        // if there's room we stay where we are: only reducing the size reverts to the static buffer
+        const auto cdr = s + num <= m_capacity ? choose_data_result{m_begin, m_capacity} : choose_data(s + num);
 
         if (cdr.ptr == m_begin)
         {
-- 
2.43.0


From c00e9cc0690adc2a349fe2cba3fc78475a009337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:20 +0000
Subject: [PATCH 06/58] fix: small_vector: allow adding copies of the vector's
 own elements

---
 include/itlib/small_vector.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 6688ef0..c703994 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -154,6 +154,7 @@
 
 #include <type_traits>
 #include <cstddef>
+#include <functional>
 #include <memory>
 
 #define ITLIB_SMALL_VECTOR_ERROR_HANDLING_NONE  0
@@ -582,6 +583,7 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        if (is_own_element(val)) return insert(position, value_type(val));
         auto pos = grow_at(position, 1);
         atraits::construct(get_alloc(), pos, val);
         return pos;
@@ -596,6 +598,7 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        if (is_own_element(val)) return insert(position, count, static_cast<const value_type&>(value_type(val)));
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
         {
@@ -631,9 +634,13 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
-        return pos;
+        if (position == m_end)
+        {
+            emplace_back(std::forward<Args>(args)...);
+            return m_end - 1;
+        }
+        // the args may refer to our own elements, so use them before moving anything
+        return insert(position, value_type(std::forward<Args>(args)...));
     }
 
     iterator erase(const_iterator position)
@@ -649,6 +656,7 @@ public:
 
     void push_back(const_reference val)
     {
+        if (is_own_element(val)) return push_back(value_type(val));
         auto pos = grow_at(m_end, 1);
         atraits::construct(get_alloc(), pos, val);
     }
@@ -662,6 +670,12 @@ public:
     template<typename... Args>
     reference emplace_back(Args&&... args)
     {
+        if (size() == m_capacity)
+        {
+            // the args may refer to our own elements, so use them before moving anything
+            push_back(value_type(std::forward<Args>(args)...));
+            return back();
+        }
         auto pos = grow_at(m_end, 1);
         atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
         return *pos;
@@ -674,6 +688,7 @@ public:
 
     void resize(size_type n, const value_type& v)
     {
+        if (is_own_element(v)) return resize(n, static_cast<const value_type&>(value_type(v)));
         reserve(n);
 
         auto new_end = m_begin + n;
@@ -722,6 +737,12 @@ private:
         return reinterpret_cast<pointer>(m_static_data + 0);
     }
 
+    bool is_own_element(const T& val) const
+    {
+        auto p = std::addressof(val);
+        return !std::less<const T*>()(p, m_begin) && std::less<const T*>()(p, m_end);
+    }
+
     void destroy_all()
     {
         for (auto p = m_begin; p != m_end; ++p)
-- 
2.43.0


From c8d532bb140e06163ce1cce1121fb6043f81b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:14 +0000
Subject: [PATCH 07/58] fix: small_vector: stay valid when constructing an
 element or allocating throws

---
 include/itlib/small_vector.hpp | 154 +++++++++++++++++++++------------
 1 file changed, 101 insertions(+), 53 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index c703994..057439d 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -585,14 +585,16 @@ public:
     {
         if (is_own_element(val)) return insert(position, value_type(val));
         auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, val);
+        hole_filler fill(*this, pos, 1);
+        fill.construct(val);
         return pos;
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
         auto pos = grow_at(position, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        hole_filler fill(*this, pos, 1);
+        fill.construct(std::move(val));
         return pos;
     }
 
@@ -600,9 +602,10 @@ public:
     {
         if (is_own_element(val)) return insert(position, count, static_cast<const value_type&>(value_type(val)));
         auto pos = grow_at(position, count);
+        hole_filler fill(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            atraits::construct(get_alloc(), pos + i, val);
+            fill.construct(val);
         }
         return pos;
     }
@@ -611,10 +614,10 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler fill(*this, pos, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), np, *p);
+            fill.construct(*p);
         }
         return pos;
     }
@@ -622,11 +625,10 @@ public:
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler fill(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            atraits::construct(get_alloc(), pos + i, std::move(elem));
-            ++i;
+            fill.construct(std::move(elem));
         }
         return pos;
     }
@@ -658,13 +660,15 @@ public:
     {
         if (is_own_element(val)) return push_back(value_type(val));
         auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, val);
+        hole_filler fill(*this, pos, 1);
+        fill.construct(val);
     }
 
     void push_back(T&& val)
     {
         auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::move(val));
+        hole_filler fill(*this, pos, 1);
+        fill.construct(std::move(val));
     }
 
     template<typename... Args>
@@ -677,7 +681,8 @@ public:
             return back();
         }
         auto pos = grow_at(m_end, 1);
-        atraits::construct(get_alloc(), pos, std::forward<Args>(args)...);
+        hole_filler fill(*this, pos, 1);
+        fill.construct(std::forward<Args>(args)...);
         return *pos;
     }
 
@@ -700,7 +705,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++, v);
+            atraits::construct(get_alloc(), m_end, v);
+            ++m_end;
         }
     }
 
@@ -717,7 +723,8 @@ public:
 
         while (new_end > m_end)
         {
-            atraits::construct(get_alloc(), m_end++);
+            atraits::construct(get_alloc(), m_end);
+            ++m_end;
         }
     }
 
@@ -749,6 +756,7 @@ private:
         {
             atraits::destroy(get_alloc(), p);
         }
+        m_end = m_begin;
     }
 
     void take_impl(small_vector& v)
@@ -774,6 +782,34 @@ private:
         v.m_capacity = StaticCapacity;
     }
 
+    // fills the hole left by grow_at
+    // if filling it throws, drops what's after the last filled element, so that only live elements remain
+    struct hole_filler
+    {
+        hole_filler(small_vector& v, T* hole, size_t num) : m_vec(v), m_cur(hole), m_hole_end(hole + num) {}
+        hole_filler(const hole_filler&) = delete;
+        hole_filler& operator=(const hole_filler&) = delete;
+        ~hole_filler()
+        {
+            if (m_cur == m_hole_end) return; // filled
+            for (auto p = m_hole_end; p != m_vec.m_end; ++p)
+            {
+                atraits::destroy(m_vec.get_alloc(), p);
+            }
+            m_vec.m_end = m_cur;
+        }
+        template <typename... Args>
+        void construct(Args&&... args)
+        {
+            atraits::construct(m_vec.get_alloc(), m_cur, std::forward<Args>(args)...);
+            ++m_cur;
+        }
+    private:
+        small_vector& m_vec;
+        T* m_cur;
+        T* m_hole_end;
+    };
+
     // increase the size by splicing the elements in such a way that
     // a hole of uninitialized elements is left at position, with size num
     // returns the (potentially new) address of the hole
@@ -915,64 +951,34 @@ private:
 
     void assign_fill(size_type count, const T& value)
     {
-        const auto cdr = choose_data(count);
-
-        m_end = cdr.ptr;
+        refiller fill(*this, choose_data(count));
         for (size_t i=0; i<count; ++i)
         {
-            atraits::construct(get_alloc(), m_end, value);
-            ++m_end;
-        }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+            fill.construct(value);
         }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
+        fill.finish();
     }
 
     template <class InputIterator>
     void assign_copy(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
-
-        m_end = cdr.ptr;
+        refiller fill(*this, choose_data(last - first));
         for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), m_end, *p);
-            ++m_end;
+            fill.construct(*p);
         }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-        }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
+        fill.finish();
     }
 
     template <class InputIterator>
     void assign_move(InputIterator first, InputIterator last)
     {
-        const auto cdr = choose_data(last - first);
-
-        m_end = cdr.ptr;
+        refiller fill(*this, choose_data(last - first));
         for (auto p = first; p != last; ++p)
         {
-            atraits::construct(get_alloc(), m_end, std::move(*p));
-            ++m_end;
-        }
-
-        if (!is_static() && m_begin != cdr.ptr)
-        {
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+            fill.construct(std::move(*p));
         }
-
-        m_begin = cdr.ptr;
-        m_capacity = cdr.cap;
+        fill.finish();
     }
 
     struct choose_data_result {
@@ -1023,6 +1029,48 @@ private:
         return ret;
     }
 
+    // fills an empty vector in a buffer from choose_data
+    // if filling it throws, leaves the vector empty in its current buffer
+    struct refiller
+    {
+        refiller(small_vector& v, choose_data_result cdr) : m_vec(v), m_data(cdr), m_end(cdr.ptr) {}
+        refiller(const refiller&) = delete;
+        refiller& operator=(const refiller&) = delete;
+        ~refiller()
+        {
+            if (!m_data.ptr) return; // finished
+            for (auto p = m_data.ptr; p != m_end; ++p)
+            {
+                atraits::destroy(m_vec.get_alloc(), p);
+            }
+            if (m_data.ptr != m_vec.m_begin && m_data.ptr != m_vec.static_begin_ptr())
+            {
+                atraits::deallocate(m_vec.get_alloc(), m_data.ptr, m_data.cap);
+            }
+        }
+        template <typename U>
+        void construct(U&& u)
+        {
+            atraits::construct(m_vec.get_alloc(), m_end, std::forward<U>(u));
+            ++m_end;
+        }
+        void finish()
+        {
+            if (!m_vec.is_static() && m_vec.m_begin != m_data.ptr)
+            {
+                atraits::deallocate(m_vec.get_alloc(), m_vec.m_begin, m_vec.m_capacity);
+            }
+            m_vec.m_begin = m_data.ptr;
+            m_vec.m_end = m_end;
+            m_vec.m_capacity = m_data.cap;
+            m_data.ptr = nullptr;
+        }
+    private:
+        small_vector& m_vec;
+        choose_data_result m_data;
+        T* m_end;
+    };
+
     allocator_type& get_alloc() { return *this; }
     const allocator_type& get_alloc() const { return *this; }
 
-- 
2.43.0


From 7eb844a343f4cb22dbe8e196608b625e0da7b681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 08/58] fix: static_vector: erasing an empty range must not
 touch the elements

---
 include/itlib/static_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf36868..627d518 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -645,6 +645,8 @@ private:
 
         auto position = const_cast<T*>(cp);
 
+        if (num == 0) return position; // nothing to erase, so no element should move
+
         const auto s = size();
         if (s - num == 0)
         {
-- 
2.43.0


From 42559f411e79c3ed25e2d4f987e46b57614e119c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 09/58] fix: static_vector: huge insert counts must not wrap
 around the capacity check

---
 include/itlib/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 627d518..12e279c 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -622,7 +622,7 @@ private:
     }
 
     T* grow_at(const T* cp, size_t by) {
-        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() + by > Capacity);
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
 
         auto position = const_cast<T*>(cp);
-- 
2.43.0


From be3bab202040947cd09cbde76965e208751c7831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 10/58] fix: static_vector: an assign which doesn't fit must
 not lose the elements

---
 include/itlib/static_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index 12e279c..bf8d522 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -269,6 +269,7 @@ public:
 
     void assign(size_type count, const T& value)
     {
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(count > Capacity);
         clear();
         assign_impl_val(count, value);
     }
@@ -276,12 +277,14 @@ public:
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     void assign(InputIterator first, InputIterator last)
     {
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(long(last - first) > long(Capacity));
         clear();
         assign_impl_iter(first, last);
     }
 
     void assign(std::initializer_list<T> ilist)
     {
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(ilist.size() > Capacity);
         clear();
         assign_impl_ilist(ilist);
     }
-- 
2.43.0


From 939135f7ae6e2992a87ca5e82d9c723ae0307383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 11/58] fix: static_vector: allow inserting copies of the
 vector's own elements

---
 include/itlib/static_vector.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index bf8d522..d280777 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -115,7 +115,9 @@
 
 #include <type_traits>
 #include <cstddef>
+#include <functional>
 #include <iterator>
+#include <memory>
 
 #define ITLIB_STATIC_VECTOR_ERROR_HANDLING_NONE  0
 #define ITLIB_STATIC_VECTOR_ERROR_HANDLING_THROW 1
@@ -466,6 +468,7 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        if (is_own_element(val)) return insert(position, value_type(val));
         auto pos = grow_at(position, 1);
         ::new (pos) T(val);
         return pos;
@@ -480,6 +483,7 @@ public:
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        if (is_own_element(val)) return insert(position, count, static_cast<const value_type&>(value_type(val)));
         auto pos = grow_at(position, count);
         for (size_type i = 0; i < count; ++i)
         {
@@ -515,9 +519,14 @@ public:
     template<typename... Args>
     iterator emplace(const_iterator position, Args&&... args)
     {
-        auto pos = grow_at(position, 1);
-        ::new (pos) T(std::forward<Args>(args)...);
-        return pos;
+        if (position == end())
+        {
+            emplace_back(std::forward<Args>(args)...);
+            return end() - 1;
+        }
+        // the args may refer to our own elements, so use them before moving anything
+        I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(size() >= Capacity);
+        return insert(position, value_type(std::forward<Args>(args)...));
     }
 
     iterator erase(const_iterator position)
@@ -593,6 +602,12 @@ public:
     }
 
 private:
+    bool is_own_element(const T& val) const
+    {
+        auto p = std::addressof(val);
+        return !std::less<const T*>()(p, begin()) && std::less<const T*>()(p, end());
+    }
+
     void assign_impl_val(size_t count, const T& value)
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(count > Capacity);
-- 
2.43.0


From d26bf07e174691148df69e73f0fc29451082526a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:21 +0000
Subject: [PATCH 12/58] fix: static_vector: stay valid and leak nothing when
 constructing an element throws

---
 include/itlib/static_vector.hpp | 54 +++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index d280777..af2979b 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -187,27 +187,32 @@ public:
     static_vector(allocator_type) {}
 
     explicit static_vector(size_t count, allocator_type = {})
+        : static_vector() // so we get destroyed if something below throws
     {
         resize(count);
     }
 
     static_vector(size_t count, const T& value, allocator_type = {})
+        : static_vector() // so we get destroyed if something below throws
     {
         assign_impl_val(count, value);
     }
 
     template <class InputIterator, typename = decltype(*std::declval<InputIterator>())>
     static_vector(InputIterator first, InputIterator last, allocator_type = {})
+        : static_vector() // so we get destroyed if something below throws
     {
         assign_impl_iter(first, last);
     }
 
     static_vector(std::initializer_list<T> l, allocator_type = {})
+        : static_vector() // so we get destroyed if something below throws
     {
         assign_impl_ilist(l);
     }
 
     static_vector(const static_vector& v)
+        : static_vector() // so we get destroyed if something below throws
     {
         for (const auto& i : v)
         {
@@ -217,6 +222,7 @@ public:
 
     template <size_t CapacityB>
     static_vector(const static_vector<T, CapacityB>& v)
+        : static_vector() // so we get destroyed if something below throws
     {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(v.size() > Capacity);
 
@@ -470,14 +476,16 @@ public:
     {
         if (is_own_element(val)) return insert(position, value_type(val));
         auto pos = grow_at(position, 1);
-        ::new (pos) T(val);
+        hole_filler fill(*this, pos, 1);
+        fill.construct(val);
         return pos;
     }
 
     iterator insert(const_iterator position, value_type&& val)
     {
         auto pos = grow_at(position, 1);
-        ::new (pos) T(std::move(val));
+        hole_filler fill(*this, pos, 1);
+        fill.construct(std::move(val));
         return pos;
     }
 
@@ -485,9 +493,10 @@ public:
     {
         if (is_own_element(val)) return insert(position, count, static_cast<const value_type&>(value_type(val)));
         auto pos = grow_at(position, count);
+        hole_filler fill(*this, pos, count);
         for (size_type i = 0; i < count; ++i)
         {
-            ::new (pos + i) T(val);
+            fill.construct(val);
         }
         return pos;
     }
@@ -496,10 +505,10 @@ public:
     iterator insert(const_iterator position, InputIterator first, InputIterator last)
     {
         auto pos = grow_at(position, last - first);
-        auto np = pos;
-        for (auto p = first; p != last; ++p, ++np)
+        hole_filler fill(*this, pos, last - first);
+        for (auto p = first; p != last; ++p)
         {
-            ::new (np) T(*p);
+            fill.construct(*p);
         }
         return pos;
     }
@@ -507,11 +516,10 @@ public:
     iterator insert(const_iterator position, std::initializer_list<T> ilist)
     {
         auto pos = grow_at(position, ilist.size());
-        size_type i = 0;
+        hole_filler fill(*this, pos, ilist.size());
         for (auto& elem : ilist)
         {
-            ::new (pos + i) T(std::move(elem));
-            ++i;
+            fill.construct(std::move(elem));
         }
         return pos;
     }
@@ -639,6 +647,34 @@ private:
         }
     }
 
+    // fills the hole left by grow_at
+    // if filling it throws, drops what's after the last filled element, so that only live elements remain
+    struct hole_filler
+    {
+        hole_filler(static_vector& v, T* hole, size_t num) : m_vec(v), m_cur(hole), m_hole_end(hole + num) {}
+        hole_filler(const hole_filler&) = delete;
+        hole_filler& operator=(const hole_filler&) = delete;
+        ~hole_filler()
+        {
+            if (m_cur == m_hole_end) return; // filled
+            for (auto p = m_hole_end; p != m_vec.end(); ++p)
+            {
+                p->~T();
+            }
+            m_vec.m_size = m_cur - m_vec.begin();
+        }
+        template <typename U>
+        void construct(U&& u)
+        {
+            ::new (m_cur) T(std::forward<U>(u));
+            ++m_cur;
+        }
+    private:
+        static_vector& m_vec;
+        T* m_cur;
+        T* m_hole_end;
+    };
+
     T* grow_at(const T* cp, size_t by) {
         I_ITLIB_STATIC_VECTOR_OUT_OF_RANGE_IF(by > Capacity - size());
         I_ITLIB_STATIC_VECTOR_BOUNDS_CHECK_ITER(cp);
-- 
2.43.0


From bd95bdc9a8dff694e19607f34509f8107ded2d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 13/58] fix: pod_vector: resize with value must only fill the
 new elements

---
 include/itlib/pod_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index bfe8674..17507fd 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -606,8 +606,12 @@ public:
 
     bool resize(size_type n, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this
         bool ret = reserve(n);
-        fill(m_end, n, val);
+        if (n > size())
+        {
+            fill(m_end, n - size(), copy);
+        }
         m_end = m_begin + n;
         return ret;
     }
-- 
2.43.0


From 03fb18e0136a654074b5575224b544ac01d8027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 14/58] fix: pod_vector: allow adding copies of the vector's
 own elements

---
 include/itlib/pod_vector.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 17507fd..d757ec7 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -287,7 +287,8 @@ public:
 
     void assign(size_type count, const T& value)
     {
-        assign_fill(count, value);
+        const value_type copy = value; // value may be an element of this
+        assign_fill(count, copy);
     }
 
     template <typename InputIterator, typename = decltype(*std::declval<InputIterator>())>
@@ -537,15 +538,17 @@ public:
 
     iterator insert(const_iterator position, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this
         auto pos = grow_at(position, 1);
-        *pos = val;
+        *pos = copy;
         return pos;
     }
 
     iterator insert(const_iterator position, size_type count, const value_type& val)
     {
+        const value_type copy = val; // val may be an element of this
         auto pos = grow_at(position, count);
-        fill(pos, count, val);
+        fill(pos, count, copy);
         return pos;
     }
 
@@ -590,7 +593,8 @@ public:
 
     reference push_back(const_reference val)
     {
-        return emplace_back() = val;
+        const value_type copy = val; // val may be an element of this
+        return emplace_back() = copy;
     }
 
     // for compatibility
-- 
2.43.0


From ac4ae12fe0d77dfe262b26029a69a40390853f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:10 +0000
Subject: [PATCH 15/58] fix: pod_vector: no taking of over-aligned buffers
 between different alignments

---
 include/itlib/pod_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index d757ec7..1b6c61c 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -267,6 +267,7 @@ public:
     void recast_take_from(pod_vector<U, UAlloc>&& other)
     {
         static_assert(allocator_aligned() == pod_vector<U, UAlloc>::allocator_aligned(), "taking buffers can only happen with the same relative allocation alignment");
+        static_assert(allocator_aligned() || alignof(T) == alignof(U), "taking over-aligned buffers can only happen with the same alignment");
 
         a_free_begin();
 
-- 
2.43.0


From 9f58b5c8cc4142a920b8ceab2ddafe569f9dbeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 16/58] fix: flat_map, flat_set: count and erase all elements
 equivalent to a key of another type

---
 include/itlib/flat_map.hpp | 16 +++++++---------
 include/itlib/flat_set.hpp | 16 +++++++---------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index f2a7d79..9865e62 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -279,7 +279,8 @@ public:
     template <typename K>
     size_t count(const K& k) const
     {
-        return find(k) == end() ? 0 : 1;
+        auto r = equal_range(k);
+        return size_t(r.second - r.first);
     }
 
     template <typename P>
@@ -325,14 +326,11 @@ public:
     template <typename K>
     size_type erase(const K& k)
     {
-        auto i = find(k);
-        if (i == end())
-        {
-            return 0;
-        }
-
-        erase(i);
-        return 1;
+        // more than one element may be equivalent to a key of another type
+        auto r = equal_range(k);
+        auto n = size_type(r.second - r.first);
+        if (n) m_container.erase(r.first, r.second);
+        return n;
     }
 
     template <typename K>
diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 53f03a6..13b87d8 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -247,7 +247,8 @@ public:
     template <typename F>
     size_t count(const F& k) const
     {
-        return find(k) == end() ? 0 : 1;
+        auto r = equal_range(k);
+        return size_t(r.second - r.first);
     }
 
     template <typename P>
@@ -293,14 +294,11 @@ public:
     template <typename F>
     size_type erase(const F& k)
     {
-        auto i = find(k);
-        if (i == end())
-        {
-            return 0;
-        }
-
-        erase(i);
-        return 1;
+        // more than one element may be equivalent to a key of another type
+        auto r = equal_range(k);
+        auto n = size_type(r.second - r.first);
+        if (n) m_container.erase(r.first, r.second);
+        return n;
     }
 
     void swap(flat_set& x)
-- 
2.43.0


From c6b3649e774aaa1fe6551e38ff2fbd2db72d4814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 17/58] fix: dynamic_bitset: all() with words smaller than int

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index ee84748..c915ea4 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -199,7 +199,7 @@ public:
         auto endit = it + m_size / bits_per_word;
         for (; it != endit; ++it)
         {
-            if (*it != ~word_type(0)) return false;
+            if (*it != word_type(~word_type(0))) return false;
         }
         if (endit != m_buf.end())
         {
-- 
2.43.0


From c71146677689dd64e292e11744cf421a310ccef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 18/58] fix: dynamic_bitset: copy must not lose trailing bits
 which span two source words

---
 include/itlib/dynamic_bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index c915ea4..7e54d46 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -400,7 +400,13 @@ public:
 
         // now what remains is some bits from source that need to be splicet onto our last element
         const auto rpad = to.index % bits_per_word;
-        m_buf[own_windex] = ((src[src_windex] >> pad) & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
+        word_type tail = src[src_windex] >> pad;
+        if (pad + rpad > bits_per_word)
+        {
+            // the remaining bits span two words of the source
+            tail |= src[src_windex + 1] << (bits_per_word - pad);
+        }
+        m_buf[own_windex] = (tail & (word_mask(rpad) - 1)) | (m_buf[own_windex] & ~(word_mask(rpad) - 1));
     }
 
     // static ops
-- 
2.43.0


From 624ed7511cbb051b999fb1987b078b3590a7db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 19/58] fix: dynamic_bitset: allow appending a bitset to itself

---
 include/itlib/dynamic_bitset.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 7e54d46..f91ee0b 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -279,6 +279,13 @@ public:
     {
         if (other.empty()) return;
 
+        if (this == &other)
+        {
+            // the buffer can't be safely inserted into itself
+            append(dynamic_bitset(other));
+            return;
+        }
+
         const auto pad = m_size % bits_per_word;
         if (pad == 0)
         {
-- 
2.43.0


From 559a45f0ac75d2f698303d67d1f472babc60a84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:26 +0000
Subject: [PATCH 20/58] fix: dynamic_bitset: stay valid on self-move assignment

---
 include/itlib/dynamic_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index f91ee0b..4c45555 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -171,6 +171,7 @@ public:
     }
     dynamic_bitset& operator=(dynamic_bitset&& x) noexcept
     {
+        if (this == &x) return *this;
         m_buf = std::move(x.m_buf);
         m_size = x.m_size;
         x.m_size = 0;
-- 
2.43.0


From 8c1de9ae0220a15a59dd131c75d1ad9292cbc3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 21/58] fix: any: move assignment takes the allocator along
 with the block it has to free

---
 include/itlib/any.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index 90994d3..a22e237 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -154,9 +154,10 @@ public:
     }
     any& operator=(any&& o) noexcept {
         if (&o == this) return *this; // prevent self usurp
-        reset();
-        m_block = o.m_block;
-        o.m_block = nullptr;
+        // the block must be freed by the allocator it came from, so take both
+        any tmp(std::move(o));
+        this->~any();
+        new (this) any(std::move(tmp));
         return *this;
     }
 
-- 
2.43.0


From 729855fdc6ef23fb8869e0c9d03fd29e15f3e598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 22/58] fix: any: self copy assignment lost the value, failed
 copy assignment too

---
 include/itlib/any.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index a22e237..fb7c289 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -236,18 +236,24 @@ public:
 
     template <typename OAlloc>
     void copy_from(const any<OAlloc>& o) {
-        reset();
-        if (!o.has_value()) return;
-        m_block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(o.m_block->size, o.m_block->alignment));
-        try {
-            o.m_block->clone_to(m_block);
-            m_block->size = o.m_block->size;
-            m_block->alignment = o.m_block->alignment;
-        }
-        catch (...) {
-            free_block(o.m_block->size, o.m_block->alignment);
-            throw;
+        // copy before resetting: o may be *this or a part of its value
+        anyimpl::obj_block* block = nullptr;
+        if (o.has_value()) {
+            const auto size = o.m_block->size;
+            const auto alignment = o.m_block->alignment;
+            block = static_cast<anyimpl::obj_block*>(Alloc::allocate_bytes(size, alignment));
+            try {
+                o.m_block->clone_to(block);
+                block->size = size;
+                block->alignment = alignment;
+            }
+            catch (...) {
+                Alloc::deallocate_bytes(block, size, alignment);
+                throw;
+            }
         }
+        reset();
+        m_block = block;
     }
 
     const std::type_info& type() const noexcept {
-- 
2.43.0


From d886d38eaaa16fd5cb95f2660453e8da0e94708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 23/58] fix: any: constructing or assigning from an lvalue
 stored a reference to it

---
 include/itlib/any.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index fb7c289..e2b4f04 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -174,15 +174,15 @@ public:
     // only enable these if T is not another any
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any(std::allocator_arg_t, const Alloc& a, T&& t) : Alloc(a) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<T>(std::forward<T>(t));
+        emplace<typename std::decay<T>::type>(std::forward<T>(t));
         return *this;
     }
 
-- 
2.43.0


From 2f344de0432f88903e9e4c870f5f2c385f2d1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 24/58] fix: any: assigning a part of the held value read it
 after it was destroyed

---
 include/itlib/any.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index e2b4f04..f979d68 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -182,7 +182,8 @@ public:
     }
     template <typename T, typename std::enable_if<!anyimpl::is_any<typename std::decay<T>::type>::value, int>::type = 0>
     any& operator=(T&& t) {
-        emplace<typename std::decay<T>::type>(std::forward<T>(t));
+        any tmp(std::allocator_arg, get_allocator(), std::forward<T>(t)); // before resetting: t may be a part of the current value
+        std::swap(m_block, tmp.m_block);
         return *this;
     }
 
-- 
2.43.0


From c7e8a3dd0018d869320125483cc4f9b3fdbfbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 25/58] fix: expected<void, E>: move assigning a value to a
 value assigned errors which don't exist

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 3685445..878867a 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -446,7 +446,7 @@ public:
             m_has_value = true;
             m_error.~E();
         }
-        else
+        else if (!m_has_value)
         {
             m_error = std::move(other.m_error);
         }
-- 
2.43.0


From 8f9bfc96938f3e08628a198f58ef9bd35582f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 26/58] fix: expected: unexpected(lvalue) moved from the lvalue

---
 include/itlib/expected.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index 878867a..c9b3980 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -183,7 +183,7 @@ public:
     expected(T&& t) : m_value(std::forward<T>(t)), m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
@@ -316,7 +316,7 @@ public:
     expected(T& t) : m_value(&t) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::move(u.m_error)) {}
+    expected(unexpected_t<E2>&& u) : m_value(nullptr), m_error(std::forward<E2>(u.m_error)) {}
 
     expected(unexpected_t<void>) : m_value(nullptr), m_error() {}
 
@@ -416,7 +416,7 @@ public:
     expected() : m_has_value(true) {}
 
     template <typename E2>
-    expected(unexpected_t<E2>&& u) : m_error(std::move(u.m_error)), m_has_value(false) {}
+    expected(unexpected_t<E2>&& u) : m_error(std::forward<E2>(u.m_error)), m_has_value(false) {}
 
     expected(unexpected_t<void>) : m_error(), m_has_value(false) {}
 
-- 
2.43.0


From 3f851d26dd28c10cc3006a7fb0b69bd9003c304b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:37 +0000
Subject: [PATCH 27/58] fix: expected<T, void>: a copy assignment which throws
 left a value which doesn't exist

---
 include/itlib/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/expected.hpp b/include/itlib/expected.hpp
index c9b3980..2e6bb0d 100644
--- a/include/itlib/expected.hpp
+++ b/include/itlib/expected.hpp
@@ -528,8 +528,8 @@ public:
         }
         else if (!m_has_value && other.has_value())
         {
-            m_has_value = true;
             ::new (&m_value) T(other.m_value);
+            m_has_value = true;
         }
         return *this;
     }
-- 
2.43.0


From 20e555af354e0c444ab1a87f4b9ff12c1bb23951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 28/58] fix: mem_ostreambuf: crash when writing after
 get_container with containers whose data() is not null when empty

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 4e8a83c..8de2ff3 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -130,7 +130,7 @@ public:
         Container ret;
         auto size = this->poff();
         ret.swap(m_data);
-        this->setp(nullptr, nullptr);
+        this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
     }
-- 
2.43.0


From a15ac0de18de42bb23130374176f7a8e955784ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 29/58] fix: mem_ostreambuf: get_container doesn't require a
 swap method from the container (small_vector has none)

---
 include/itlib/mem_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index 8de2ff3..a35f7fb 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -91,6 +91,7 @@
 #include <streambuf>
 #include <cstring>
 #include <cassert>
+#include <utility>
 
 namespace itlib
 {
@@ -129,7 +130,8 @@ public:
     {
         Container ret;
         auto size = this->poff();
-        ret.swap(m_data);
+        using std::swap;
+        swap(ret, m_data);
         this->setp(m_data.data(), m_data.data());
         ret.resize(size);
         return ret;
-- 
2.43.0


From 2b0fb38badec8b8da38e03509dc5b1ffc3efd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 30/58] fix: mem_ostreambuf: block writes longer than the
 character's int_type lost the position

---
 include/itlib/mem_streambuf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index a35f7fb..a85bddc 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -169,7 +169,7 @@ private:
         }
 
         memcpy(this->pptr(), s, num * sizeof(char_type));
-        this->pbump(int_type(num));
+        this->setp(this->pptr() + num, this->epptr()); // pbump takes an int
 
         return num;
     }
-- 
2.43.0


From 78ab9fc285f7790a8341c5c4b5ab6289421beb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 31/58] fix: mem_ostreambuf: seeks work on the written data: no
 loss of what's after the position, no seeking outside of it

---
 include/itlib/mem_streambuf.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index a85bddc..b91d17a 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -101,6 +101,7 @@ class mem_ostreambuf final : public std::basic_streambuf<typename Container::val
 {
 private:
     Container m_data;
+    size_t m_written = 0; // end of written data as of the last seek
     static_assert(std::is_trivial<typename Container::value_type>::value, "mem ostream must be of pod type");
     using super = std::basic_streambuf<typename Container::value_type>;
 public:
@@ -129,17 +130,19 @@ public:
     Container get_container()
     {
         Container ret;
-        auto size = this->poff();
+        auto size = written();
         using std::swap;
         swap(ret, m_data);
         this->setp(m_data.data(), m_data.data());
         ret.resize(size);
+        m_written = 0;
         return ret;
     }
 
     void clear()
     {
         m_data.clear();
+        m_written = 0;
         this->setp(m_data.data(), m_data.data());
     }
 
@@ -176,20 +179,29 @@ private:
 
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setp(m_data.data() + int(sp), m_data.data() + m_data.size());
+        m_written = written();
+        const auto pos = off_type(sp);
+        if (pos < 0 || pos > off_type(m_written)) return pos_type(off_type(-1));
+        this->setp(m_data.data() + pos, m_data.data() + m_data.size());
         return sp;
     }
 
     pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode) override
     {
-        if (way == std::ios_base::cur) return seekpos(poff() + off, std::ios_base::out);
+        if (way == std::ios_base::cur) return seekpos(off_type(poff()) + off, std::ios_base::out);
         if (way == std::ios_base::beg) return seekpos(off, std::ios_base::out);
-        if (way == std::ios_base::end) return seekpos(m_data.size() + off, std::ios_base::out);
-        return super::traits_type::eof();
+        if (way == std::ios_base::end) return seekpos(off_type(written()) + off, std::ios_base::out);
+        return pos_type(off_type(-1));
     }
 
 private:
 
+    size_t written() const
+    {
+        const auto off = poff();
+        return off > m_written ? off : m_written;
+    }
+
     void cap_resize_by(size_t by)
     {
         auto off = poff();
-- 
2.43.0


From 8b2c19cfb7d95871e26938b091dcbac56ca830cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 32/58] fix: mem_istreambuf: don't seek outside of the buffer

---
 include/itlib/mem_streambuf.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index b91d17a..d505e9d 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -254,21 +254,23 @@ public:
 private:
     pos_type seekpos(pos_type sp, std::ios_base::openmode) override
     {
-        this->setg(this->eback(), this->eback() + sp, this->egptr());
+        const auto pos = off_type(sp);
+        if (pos < 0 || pos > off_type(size())) return pos_type(off_type(-1));
+        this->setg(this->eback(), this->eback() + pos, this->egptr());
         return sp;
     }
 
     pos_type seekoff(off_type off, std::ios_base::seekdir way, std::ios_base::openmode) override
     {
-        if (way == std::ios_base::cur) return seekpos(goff() + off, std::ios_base::in);
+        if (way == std::ios_base::cur) return seekpos(off_type(goff()) + off, std::ios_base::in);
         if (way == std::ios_base::beg) return seekpos(off, std::ios_base::in);
-        if (way == std::ios_base::end) return seekpos(size() + off, std::ios_base::in);
-        return super::traits_type::eof();
+        if (way == std::ios_base::end) return seekpos(off_type(size()) + off, std::ios_base::in);
+        return pos_type(off_type(-1));
     }
 
     std::streamsize xsgetn(char_type* s, std::streamsize count) override
     {
-        if (this->gptr() + count > this->egptr())
+        if (count > this->egptr() - this->gptr())
         {
             count = this->egptr() - this->gptr();
         }
-- 
2.43.0


From e3c53a5406b329e52fc9e20ba6f98a34b6111690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 33/58] fix: redirect_rstream: restore the position even if the
 redirected reads failed

---
 include/itlib/rstream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/rstream.hpp b/include/itlib/rstream.hpp
index 997e51c..0bf52b3 100644
--- a/include/itlib/rstream.hpp
+++ b/include/itlib/rstream.hpp
@@ -124,7 +124,9 @@ public:
 
     ~basic_redirect_rstream()
     {
-        this->m_in.seekg(m_restore);
+        if (!this->m_in.fail()) this->m_in.seekg(m_restore);
+        // seekg does nothing on a failed stream (say, after reading past its end)
+        else if (m_restore != std::streampos(-1)) this->m_in.rdbuf()->pubseekpos(m_restore, std::ios_base::in);
     }
 private:
     std::streampos m_restore;
-- 
2.43.0


From 58b1957c98a22508c1aae992912ca9b0af5a133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 34/58] fix: span::subspan with an offset large enough to wrap
 the address

---
 include/itlib/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index 8b10def..f0691af 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -265,7 +265,7 @@ public:
     // slicing
     span subspan(size_t off, size_t count = size_t(-1)) const noexcept
     {
-        if (m_begin + off > m_end) return span(m_end, 0);
+        if (off > size()) return span(m_end, m_end);
         auto newSize = size() - off;
         if (count > newSize) count = newSize;
         return span(m_begin + off, count);
-- 
2.43.0


From 73c2533b38ec69de8a006fa2940eb97373884759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 35/58] fix: last(n) of spans is clamped to the span for a
 larger n, as first(n) is

---
 include/itlib/poly_span.hpp   | 2 +-
 include/itlib/span.hpp        | 2 +-
 include/itlib/stride_span.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index e48b4f3..755a61b 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -323,7 +323,7 @@ public:
 
     poly_span last(size_t n) const noexcept
     {
-        return subspan(size() - n, n);
+        return subspan(n > size() ? 0 : size() - n, n);
     }
 
     void remove_prefix(size_t n) noexcept
diff --git a/include/itlib/span.hpp b/include/itlib/span.hpp
index f0691af..b040a06 100644
--- a/include/itlib/span.hpp
+++ b/include/itlib/span.hpp
@@ -278,7 +278,7 @@ public:
 
     span last(size_t n) const noexcept
     {
-        return subspan(size() - n, n);
+        return subspan(n > size() ? 0 : size() - n, n);
     }
 
     void remove_prefix(size_t n) noexcept
diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index 998b3d8..b446447 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -309,7 +309,7 @@ public:
 
     stride_span last(size_t n) const noexcept
     {
-        return subspan(size() - n, n);
+        return subspan(n > size() ? 0 : size() - n, n);
     }
 
     void remove_prefix(size_t n) noexcept
-- 
2.43.0


From 04eefca5ff253fea623814aa327eb2b031505174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 36/58] fix: negative differences of stride_span and poly_span
 iterators

---
 include/itlib/poly_span.hpp   | 2 +-
 include/itlib/stride_span.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/poly_span.hpp b/include/itlib/poly_span.hpp
index 755a61b..2a16dc2 100644
--- a/include/itlib/poly_span.hpp
+++ b/include/itlib/poly_span.hpp
@@ -227,7 +227,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride, poly_func); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride, poly_func); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
diff --git a/include/itlib/stride_span.hpp b/include/itlib/stride_span.hpp
index b446447..1a6bdd7 100644
--- a/include/itlib/stride_span.hpp
+++ b/include/itlib/stride_span.hpp
@@ -213,7 +213,7 @@ public:
         t_iterator& operator-=(const ptrdiff_t diff) noexcept { p -= diff * stride; return *this; }
         t_iterator operator+(const ptrdiff_t diff) const noexcept { return t_iterator(p + stride * diff, stride); }
         t_iterator operator-(const ptrdiff_t diff) const noexcept { return t_iterator(p - stride * diff, stride); }
-        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / stride; }
+        ptrdiff_t operator-(const t_iterator& other) const noexcept { return (p - other.p) / ptrdiff_t(stride); }
         bool operator==(const t_iterator& other) const noexcept { return p == other.p; }
         bool operator!=(const t_iterator& other) const noexcept { return p != other.p; }
         bool operator<(const t_iterator& other) const noexcept { return p < other.p; }
-- 
2.43.0


From 51fe13a19ec37360f0024e381306fd82401f27ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 37/58] fix: a failed compare_exchange of
 atomic_shared_ptr_storage destroyed the expected value's pointee under the
 lock

---
 include/itlib/atomic_shared_ptr_storage.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/itlib/atomic_shared_ptr_storage.hpp b/include/itlib/atomic_shared_ptr_storage.hpp
index b59a038..a117e95 100644
--- a/include/itlib/atomic_shared_ptr_storage.hpp
+++ b/include/itlib/atomic_shared_ptr_storage.hpp
@@ -119,15 +119,19 @@ public:
 
     // have _strong to match atomic<shared_ptr>
     bool compare_exchange_strong(sptr& expect, sptr ptr) noexcept {
-        asps_spinlock::lock_guard _l(m_spinlock);
-        if (m_ptr == expect) {
-            m_ptr.swap(ptr);
-            return true;
-        }
-        else {
-            expect = m_ptr;
-            return false;
+        sptr current;
+        {
+            asps_spinlock::lock_guard _l(m_spinlock);
+            if (m_ptr == expect) {
+                m_ptr.swap(ptr);
+                return true;
+            }
+            current = m_ptr;
         }
+        // release the old value of expect outside of the lock:
+        // it could be the last reference to an object whose destructor uses this storage
+        expect = std::move(current);
+        return false;
     }
 };
 #if defined(_MSC_VER)
-- 
2.43.0


From 11d9d2c09e6990b1b3ebf1f6061f586eaf2fae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:59 +0000
Subject: [PATCH 38/58] fix: data_mutex guards unlocked a mutex whose locking
 had thrown

---
 include/itlib/data_mutex.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/itlib/data_mutex.hpp b/include/itlib/data_mutex.hpp
index 60ffbfe..18b8e9f 100644
--- a/include/itlib/data_mutex.hpp
+++ b/include/itlib/data_mutex.hpp
@@ -76,8 +76,7 @@ public:
     protected:
         Mutex& m_mutex;
         CT* m_data;
-        lock_base_t(Mutex& mutex, CT& data) : m_mutex(mutex), m_data(&data) {}
-        lock_base_t(Mutex& mutex) : m_mutex(mutex) {}
+        lock_base_t(Mutex& mutex) : m_mutex(mutex), m_data(nullptr) {} // data is set once the mutex is locked
         ~lock_base_t() = default;
         lock_base_t(const lock_base_t&) = delete;
         lock_base_t& operator=(const lock_base_t&) = delete;
@@ -101,8 +100,9 @@ public:
     };
 
     struct unique_lock_t : public unique_lock_base_t<T> {
-        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex, dm.m_data) {
+        explicit unique_lock_t(data_mutex& dm) : unique_lock_base_t<T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -115,8 +115,9 @@ public:
     };
 
     struct const_unique_lock_t : public unique_lock_base_t<const T> {
-        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex, dm.m_data) {
+        explicit const_unique_lock_t(const data_mutex& dm) : unique_lock_base_t<const T>(dm.m_mutex) {
             this->m_mutex.lock();
+            this->m_data = &dm.m_data;
         }
     };
 
@@ -136,8 +137,9 @@ public:
     };
 
     struct shared_lock_t : public shared_lock_base_t {
-        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex, dm.m_data) {
+        explicit shared_lock_t(const data_mutex& dm) : shared_lock_base_t(dm.m_mutex) {
             this->m_mutex.lock_shared();
+            this->m_data = &dm.m_data;
         }
     };
 
-- 
2.43.0


From bb21d5f2eae91781f0192713728887bfcecc40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 39/58] fix: generator::begin resumed a body that had ended

---
 include/itlib/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 0cead31..26a47f1 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -216,7 +216,7 @@ public:
     };
 
     pseudo_iterator begin() {
-        safe_resume(m_handle);
+        if (!done()) safe_resume(m_handle);
         return pseudo_iterator{m_handle};
     }
 
-- 
2.43.0


From c8dba617303df31d1f532c2026fd1c66f6f4f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:23 +0000
Subject: [PATCH 40/58] fix: self move assignment of a generator left a
 dangling handle

---
 include/itlib/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/itlib/generator.hpp b/include/itlib/generator.hpp
index 26a47f1..dbc96cf 100644
--- a/include/itlib/generator.hpp
+++ b/include/itlib/generator.hpp
@@ -152,8 +152,9 @@ public:
     generator(generator&& other) noexcept : m_handle(std::exchange(other.m_handle, nullptr)) {}
 
     generator& operator=(generator&& other) noexcept {
+        auto h = std::exchange(other.m_handle, nullptr); // first, as this may be the same generator
         if (m_handle) m_handle.destroy();
-        m_handle = std::exchange(other.m_handle, nullptr);
+        m_handle = h;
         return *this;
     }
 
-- 
2.43.0


From 5f873035c2692953959e79d3857c94a1f0060d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 41/58] fix: strftime never returned for text that is empty

---
 include/itlib/time_t.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/itlib/time_t.hpp b/include/itlib/time_t.hpp
index ee8dd6c..a654a79 100644
--- a/include/itlib/time_t.hpp
+++ b/include/itlib/time_t.hpp
@@ -167,11 +167,16 @@ private:
 
 inline std::string strftime(const char* format, const std::tm& tm)
 {
+    // std::strftime returns zero both for text which doesn't fit and for an empty one
+    // prepend something, so that the text is never empty
+    std::string fmt(1, ' ');
+    fmt += format;
     std::string ret;
     ret.resize(128);
     size_t len;
-    while ((len = std::strftime(&ret.front(), ret.size(), format, &tm)) == 0) ret.resize(2 * ret.size());
+    while ((len = std::strftime(&ret.front(), ret.size(), fmt.c_str(), &tm)) == 0) ret.resize(2 * ret.size());
     ret.resize(len);
+    ret.erase(0, 1);
     return ret;
 }
 
-- 
2.43.0


From 8232a04b7b8d968ded0be698fb020d92e0126d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 42/58] fix: throw_ex terminated when used in a try block while
 another exception is being handled

---
 include/itlib/throw_ex.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/itlib/throw_ex.hpp b/include/itlib/throw_ex.hpp
index fe2e2da..318840d 100644
--- a/include/itlib/throw_ex.hpp
+++ b/include/itlib/throw_ex.hpp
@@ -43,6 +43,7 @@
 //
 #pragma once
 #include <sstream>
+#include <exception>
 
 #if defined(_MSC_VER)
 #pragma warning(push)
@@ -54,13 +55,19 @@ namespace itlib {
 template <typename Exception>
 class throw_ex {
     std::ostringstream out;
+    // exceptions which were being handled before this one: it's fine to throw within a try block of a destructor
+#if __cplusplus >= 201700
+    const int m_uncaught = std::uncaught_exceptions();
+#else
+    const bool m_uncaught = std::uncaught_exception();
+#endif
 public:
     throw_ex() = default;
     [[noreturn]] ~throw_ex() noexcept(false) {
 #if __cplusplus >= 201700
-        if (std::uncaught_exceptions())
+        if (std::uncaught_exceptions() > m_uncaught)
 #else
-        if (std::uncaught_exception())
+        if (std::uncaught_exception() && !m_uncaught)
 #endif
             std::terminate(); // should never happen but helps us avoid warnings
         throw Exception(out.str());
-- 
2.43.0


From 3f0f7ba21ca7fc2c86f00ce928374a50123b800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 43/58] fix: sentry of an lvalue functor or function compiles
 before C++17

---
 include/itlib/sentry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/sentry.hpp b/include/itlib/sentry.hpp
index ccd9458..116755e 100644
--- a/include/itlib/sentry.hpp
+++ b/include/itlib/sentry.hpp
@@ -106,7 +106,7 @@ public:
     ~sentry() { m_func(); }
 #else
     sentry(sentry&& other) noexcept
-        : m_func(std::move(other.m_func))
+        : m_func(std::forward<Func>(other.m_func))
         , m_has_func(other.m_has_func)
     {
         other.m_has_func = false;
-- 
2.43.0


From cbfa73615fb3e3991adcb72d9585efc1a3ff8c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 44/58] fix: pmr_allocator.hpp can be included more than once,
 includes what it uses

---
 include/itlib/pmr_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 33efd0f..f7d4caa 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -46,8 +46,11 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
+
 #include <memory_resource>
 #include <cstddef>
+#include <utility>
 
 namespace itlib {
 
-- 
2.43.0


From d98142fd656337d0c6b1db507c4799be8ef4295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 45/58] fix: containers which use pmr_allocator can be copied

---
 include/itlib/pmr_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index f7d4caa..4a3b463 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -62,6 +62,10 @@ public:
 
     using super::polymorphic_allocator;
 
+    pmr_allocator() noexcept = default;
+    // not inherited: needed by containers which select an allocator for their copies
+    pmr_allocator(const super& other) noexcept : super(other) {}
+
     // leave this to the standard implementation if available
 #if __cplusplus < 202000L
     using super::resource;
-- 
2.43.0


From db060959c9323e77422f6391a8272fdef7e6062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 46/58] fix: pmr_allocator::allocate_object throws when the
 byte count overflows

---
 include/itlib/pmr_allocator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/itlib/pmr_allocator.hpp b/include/itlib/pmr_allocator.hpp
index 4a3b463..8e9433d 100644
--- a/include/itlib/pmr_allocator.hpp
+++ b/include/itlib/pmr_allocator.hpp
@@ -50,6 +50,7 @@
 
 #include <memory_resource>
 #include <cstddef>
+#include <new>
 #include <utility>
 
 namespace itlib {
@@ -80,6 +81,7 @@ public:
 
     template <class U>
     [[nodiscard]] U* allocate_object(std::size_t n = 1) {
+        if (n > std::size_t(-1) / sizeof(U)) throw std::bad_array_new_length();
         return static_cast<U*>(allocate_bytes(n * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From 4db0e931075b939b08c24916f460d96a2e62d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:04 +0000
Subject: [PATCH 47/58] fix: flat_map, flat_set: of equivalent entries given to
 a constructor keep the first, like std::map and std::set

---
 include/itlib/flat_map.hpp | 2 +-
 include/itlib/flat_set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/itlib/flat_map.hpp b/include/itlib/flat_map.hpp
index 9865e62..aacc545 100644
--- a/include/itlib/flat_map.hpp
+++ b/include/itlib/flat_map.hpp
@@ -169,7 +169,7 @@ public:
         : pair_compare(comp)
         , m_container(std::move(container))
     {
-        std::sort(m_container.begin(), m_container.end(), cmp());
+        std::stable_sort(m_container.begin(), m_container.end(), cmp()); // of equivalent ones the first stays
         auto new_end = std::unique(m_container.begin(), m_container.end(), [this](const value_type& a, const value_type& b) {
             return !cmp()(a, b) && !cmp()(b, a);
         });
diff --git a/include/itlib/flat_set.hpp b/include/itlib/flat_set.hpp
index 13b87d8..7db992a 100644
--- a/include/itlib/flat_set.hpp
+++ b/include/itlib/flat_set.hpp
@@ -135,7 +135,7 @@ public:
         : Compare(comp)
         , m_container(std::move(container))
     {
-        std::sort(m_container.begin(), m_container.end(), cmp());
+        std::stable_sort(m_container.begin(), m_container.end(), cmp()); // of equivalent ones the first stays
         auto new_end = std::unique(m_container.begin(), m_container.end(), [this](const value_type& a, const value_type& b) -> bool {
             return !cmp()(a, b) && !cmp()(b, a);
         });
-- 
2.43.0


From befc81dab35c6abe3e9c1ea3243c6f5c82d2c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:13 +0000
Subject: [PATCH 48/58] fix: pod_vector: growing doesn't exceed what the
 allocator's size type can express

---
 include/itlib/pod_vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 1b6c61c..55b895d 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -113,6 +113,7 @@
 #include <cstdlib>
 #include <iterator>
 #include <cstring>
+#include <limits>
 #include <cstdint>
 #include <algorithm>
 
@@ -679,7 +680,9 @@ private:
                 new_cap /= 2;
             }
 
-            return new_cap;
+            // more than needed, but not more than the allocator's size type can express
+            const size_t max_bytes = size_t(std::numeric_limits<size_type>::max()) - (allocator_aligned() ? 0 : alignof(T));
+            return size_type(new_cap > max_bytes / sizeof(T) ? desired_capacity : new_cap);
         }
     }
 
-- 
2.43.0


From bef0f183559cd02a449eeaa6a81d0e9f966f93ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:12 +0000
Subject: [PATCH 49/58] fix: transparent_umap: the overloads for other key
 types take part when hash and equality are transparent

---
 include/itlib/transparent_umap.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/itlib/transparent_umap.hpp b/include/itlib/transparent_umap.hpp
index a69436f..180944d 100644
--- a/include/itlib/transparent_umap.hpp
+++ b/include/itlib/transparent_umap.hpp
@@ -57,10 +57,12 @@
 namespace itlib {
 
 namespace tumimpl {
-template <typename T, typename = void>
+// K is not used here, but it makes the value dependent in overloads templated on it
+template <typename K, typename Hash, typename KeyEqual, typename = void>
 constexpr bool is_transparent = false;
-template <class T>
-constexpr bool is_transparent<T, std::void_t<typename T::is_transparent>> = true;
+template <typename K, typename Hash, typename KeyEqual>
+constexpr bool is_transparent<K, Hash, KeyEqual,
+    std::void_t<typename Hash::is_transparent, typename KeyEqual::is_transparent>> = true;
 } // namespace tumimpl
 
 // yes... a macro
@@ -83,13 +85,13 @@ public:
 
     // enable if transparent
     template <typename K, typename R>
-    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K>, R>;
+    using enable_if_tr = std::enable_if_t<tumimpl::is_transparent<K, Hash, KeyEqual>, R>;
 
     // enable if transparent and convertible
     template <typename K, typename R>
     using enable_if_tr_c = std::enable_if_t<
-        tumimpl::is_transparent<K>
-        && std::is_convertible_v<Key, K>
+        tumimpl::is_transparent<K, Hash, KeyEqual>
+        && std::is_constructible_v<Key, K>
         // but not iterators
         && !std::is_convertible_v<K, iterator>
         && !std::is_convertible_v<K, const_iterator>
@@ -106,10 +108,10 @@ public:
     }
 
     template <typename K, typename... Args>
-    enable_if_tr<K, std::pair<iterator, bool>> try_emplace(const_iterator hint, K&& key, Args&&... args) {
+    enable_if_tr<K, iterator> try_emplace(const_iterator hint, K&& key, Args&&... args) {
         // what does the hint even mean?
         auto f = this->find(key);
-        if (f != this->end()) return { f, false };
+        if (f != this->end()) return f;
         return this->emplace_hint(hint, std::forward<K>(key), T(std::forward<Args>(args)...));
     }
 
-- 
2.43.0


From 80b1e50a436d38dd91cf49f6007850063a00b73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:08 +0000
Subject: [PATCH 50/58] fix: is_noop_convertible: enums over bool are cast like
 bool

---
 include/itlib/type_traits.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/itlib/type_traits.hpp b/include/itlib/type_traits.hpp
index d4bab2b..bd1c18f 100644
--- a/include/itlib/type_traits.hpp
+++ b/include/itlib/type_traits.hpp
@@ -75,6 +75,14 @@ struct type_identity {
     using type = T;
 };
 
+namespace impl {
+// bool or an enum whose underlying type is bool
+template <typename T, bool IsEnum = std::is_enum<T>::value>
+struct is_bool_like : public std::is_same<T, bool> {};
+template <typename T>
+struct is_bool_like<T, true> : public std::is_same<typename std::underlying_type<T>::type, bool> {};
+}
+
 template <typename From, typename To>
 struct is_noop_convertible {
     using from_t = typename std::remove_cv<From>::type;
@@ -85,7 +93,7 @@ struct is_noop_convertible {
         && std::is_scalar<to_t>::value
         && std::is_floating_point<from_t>::value == std::is_floating_point<to_t>::value
         // bool -> int8 is a noop, but int8 -> bool is not
-        && (std::is_same<to_t, bool>::value ? std::is_same<from_t, bool>::value : true)
+        && (impl::is_bool_like<to_t>::value ? impl::is_bool_like<from_t>::value : true)
         ;
 };
 
-- 
2.43.0


From 414dfff4ec52618b38517553d8dacb991d900026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:34 +0000
Subject: [PATCH 51/58] fix: mem_ostreambuf: copies and moves write to their
 own container

---
 include/itlib/mem_streambuf.hpp | 44 +++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/include/itlib/mem_streambuf.hpp b/include/itlib/mem_streambuf.hpp
index d505e9d..0496d18 100644
--- a/include/itlib/mem_streambuf.hpp
+++ b/include/itlib/mem_streambuf.hpp
@@ -116,6 +116,36 @@ public:
         cap_resize_by(reserve);
     }
 
+    // the put area of a copy is in its own container
+    mem_ostreambuf(const mem_ostreambuf& other)
+        : super(other), m_data(other.m_data), m_written(other.m_written)
+    {
+        set_put_area(other.poff());
+    }
+
+    mem_ostreambuf(mem_ostreambuf&& other)
+        : super(other)
+    {
+        take(other);
+    }
+
+    mem_ostreambuf& operator=(const mem_ostreambuf& other)
+    {
+        if (this == &other) return *this;
+        mem_ostreambuf copy(other); // first, as it may throw
+        super::operator=(other);
+        take(copy);
+        return *this;
+    }
+
+    mem_ostreambuf& operator=(mem_ostreambuf&& other)
+    {
+        if (this == &other) return *this;
+        super::operator=(other);
+        take(other);
+        return *this;
+    }
+
     // put offset
     size_t poff() const
     {
@@ -202,6 +232,20 @@ private:
         return off > m_written ? off : m_written;
     }
 
+    void set_put_area(size_t off)
+    {
+        this->setp(m_data.data() + off, m_data.data() + m_data.size());
+    }
+
+    void take(mem_ostreambuf& other)
+    {
+        const auto off = other.poff();
+        m_data = std::move(other.m_data);
+        m_written = other.m_written;
+        set_put_area(off);
+        other.clear();
+    }
+
     void cap_resize_by(size_t by)
     {
         auto off = poff();
-- 
2.43.0


From 2a176f8dc1e5937b7e69d3749ba9a21d07d145a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:22 +0000
Subject: [PATCH 52/58] fix: static_vector: stay valid when moving an element
 throws

---
 include/itlib/static_vector.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/itlib/static_vector.hpp b/include/itlib/static_vector.hpp
index af2979b..c209daa 100644
--- a/include/itlib/static_vector.hpp
+++ b/include/itlib/static_vector.hpp
@@ -233,6 +233,7 @@ public:
     }
 
     static_vector(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
+        : static_vector() // so we get destroyed if something below throws
     {
         for (auto i = v.begin(); i != v.end(); ++i)
         {
@@ -263,7 +264,7 @@ public:
         return *this;
     }
 
-    static_vector& operator=(static_vector&& v) noexcept(std::is_nothrow_move_assignable<T>::value)
+    static_vector& operator=(static_vector&& v) noexcept(std::is_nothrow_move_constructible<T>::value)
     {
         clear();
         for (auto i = v.begin(); i!=v.end(); ++i)
@@ -603,10 +604,9 @@ public:
         for (size_t i = shorter->size(); i < longer->size(); ++i)
         {
             shorter->emplace_back(std::move(longer->at(i)));
-            longer->at(i).~T();
         }
 
-        longer->m_size = short_size;
+        longer->erase(longer->begin() + short_size, longer->end());
     }
 
 private:
@@ -669,6 +669,19 @@ private:
             ::new (m_cur) T(std::forward<U>(u));
             ++m_cur;
         }
+        // move the hole towards the front by moving elements over it
+        void sink_to(T* position)
+        {
+            while (m_cur != position)
+            {
+                ::new (m_hole_end - 1) T(std::move(*(m_cur - 1)));
+                --m_hole_end;
+                --m_cur;
+                m_cur->~T();
+            }
+        }
+        // leave the hole to be filled by another
+        void release() { m_cur = m_hole_end; }
     private:
         static_vector& m_vec;
         T* m_cur;
@@ -682,12 +695,10 @@ private:
         auto position = const_cast<T*>(cp);
         if (by == 0) return position;
 
-        for (auto p = end() - 1; p >= position; --p)
-        {
-            ::new (p + by) T(std::move(*p));
-            p->~T();
-        }
+        hole_filler hole(*this, end(), by);
         m_size += by;
+        hole.sink_to(position);
+        hole.release();
 
         return position;
     }
@@ -712,7 +723,8 @@ private:
         for (auto p = position, np = position + num; np != myend; ++p, ++np)
         {
             p->~T();
-            ::new (p) T(std::move(*np));
+            hole_filler fill(*this, p, 1);
+            fill.construct(std::move(*np));
         }
 
         for (auto p = myend - num; p != myend; ++p)
-- 
2.43.0


From 9dc12f7a79c2b3214d90e653900d91e1ae294fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:22 +0000
Subject: [PATCH 53/58] fix: small_vector: stay valid when moving (or copying,
 in place of that) an element throws

---
 include/itlib/small_vector.hpp | 164 +++++++++++++--------------------
 1 file changed, 66 insertions(+), 98 deletions(-)

diff --git a/include/itlib/small_vector.hpp b/include/itlib/small_vector.hpp
index 057439d..42dbb4e 100644
--- a/include/itlib/small_vector.hpp
+++ b/include/itlib/small_vector.hpp
@@ -479,29 +479,14 @@ public:
         assert(cdr.ptr != m_begin); // should've been handled by new_cap <= m_capacity
         assert(cdr.ptr != static_begin_ptr()); // we should never reserve into static memory
 
-        auto s = size();
-
-        // now we need to transfer the existing elements into the new buffer
-        for (size_type i = 0; i < s; ++i)
-        {
-            atraits::construct(get_alloc(), cdr.ptr + i, std::move(*(m_begin + i)));
-        }
-
-        // free old elements
-        for (size_type i = 0; i < s; ++i)
-        {
-            atraits::destroy(get_alloc(), m_begin + i);
-        }
-
-        if (!is_static())
+        // transfer the existing elements into the new buffer
+        refiller fill(*this, cdr);
+        for (auto p = m_begin; p != m_end; ++p)
         {
-            // we've moved from dyn to dyn memory, so deallocate the old one
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
+            fill.construct(std::move(*p));
         }
-
-        m_begin = cdr.ptr;
-        m_end = m_begin + s;
-        m_capacity = cdr.cap;
+        destroy_all();
+        fill.finish();
     }
 
     size_t capacity() const noexcept
@@ -516,31 +501,21 @@ public:
         if (is_static()) return false; // can't shrink static buf
         if (s > StaticCapacity && s == m_capacity) return false; // we're at max
 
-        auto old_begin = m_begin;
-        auto old_end = m_end;
-        auto old_cap = m_capacity;
-
-        if (s <= StaticCapacity)
-        {
-            // revert to static capacity
-            m_begin = m_end = static_begin_ptr();
-            m_capacity = StaticCapacity;
-        }
-        else
+        choose_data_result cdr = {static_begin_ptr(), StaticCapacity}; // revert to static capacity
+        if (s > StaticCapacity)
         {
             // alloc new smaller buffer
-            m_begin = m_end = atraits::allocate(get_alloc(), s);
-            m_capacity = s;
+            cdr.ptr = atraits::allocate(get_alloc(), s);
+            cdr.cap = s;
         }
 
-        for (auto p = old_begin; p != old_end; ++p)
+        refiller fill(*this, cdr);
+        for (auto p = m_begin; p != m_end; ++p)
         {
-            atraits::construct(get_alloc(), m_end, std::move(*p));
-            ++m_end;
-            atraits::destroy(get_alloc(), p);
+            fill.construct(std::move(*p));
         }
-
-        atraits::deallocate(get_alloc(), old_begin, old_cap);
+        destroy_all();
+        fill.finish();
         return true;
     }
 
@@ -804,6 +779,19 @@ private:
             atraits::construct(m_vec.get_alloc(), m_cur, std::forward<Args>(args)...);
             ++m_cur;
         }
+        // move the hole towards the front by moving elements over it
+        void sink_to(T* position)
+        {
+            while (m_cur != position)
+            {
+                atraits::construct(m_vec.get_alloc(), m_hole_end - 1, std::move(*(m_cur - 1)));
+                --m_hole_end;
+                --m_cur;
+                atraits::destroy(m_vec.get_alloc(), m_cur);
+            }
+        }
+        // leave the hole to be filled by another
+        void release() { m_cur = m_hole_end; }
     private:
         small_vector& m_vec;
         T* m_cur;
@@ -829,13 +817,10 @@ private:
         {
             // no special transfers needed
 
-            m_end = m_begin + s + num;
-
-            for (auto p = m_end - num - 1; p >= position; --p)
-            {
-                atraits::construct(get_alloc(), p + num, std::move(*p));
-                atraits::destroy(get_alloc(), p);
-            }
+            hole_filler hole(*this, m_end, num);
+            m_end += num;
+            hole.sink_to(position);
+            hole.release();
 
             return position;
         }
@@ -843,39 +828,22 @@ private:
         {
             // we need to transfer the elements into the new buffer
 
-            position = cdr.ptr + (position - m_begin);
-
+            const auto offset = position - m_begin;
+            refiller fill(*this, cdr);
             auto p = m_begin;
-            auto np = cdr.ptr;
-
-            for (; np != position; ++p, ++np)
+            for (; p != position; ++p)
             {
-                atraits::construct(get_alloc(), np, std::move(*p));
+                fill.construct(std::move(*p));
             }
-
-            np += num; // hole
-            for (; p != m_end; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-            }
-
-            // destroy old
-            for (p = m_begin; p != m_end; ++p)
-            {
-                atraits::destroy(get_alloc(), p);
-            }
-
-            if (!is_static())
+            fill.skip(num); // hole
+            for (; p != m_end; ++p)
             {
-                // we've moved from dyn memory, so deallocate the old one
-                atraits::deallocate(get_alloc(), m_begin, m_capacity);
+                fill.construct(std::move(*p));
             }
+            destroy_all();
+            fill.finish();
 
-            m_begin = cdr.ptr;
-            m_end = m_begin + s + num;
-            m_capacity = cdr.cap;
-
-            return position;
+            return m_begin + offset;
         }
     }
 
@@ -903,7 +871,8 @@ private:
             for (auto p = position, np = position + num; np != m_end; ++p, ++np)
             {
                 atraits::destroy(get_alloc(), p);
-                atraits::construct(get_alloc(), p, std::move(*np));
+                hole_filler fill(*this, p, 1);
+                fill.construct(std::move(*np));
             }
 
             for (auto p = m_end - num; p != m_end; ++p)
@@ -919,31 +888,20 @@ private:
 
             assert(cdr.ptr == static_begin_ptr()); // since we're shrinking that's the only way to have a new buffer
 
-            auto p = m_begin, np = cdr.ptr;
-            for (; p != position; ++p, ++np)
+            const auto offset = position - m_begin;
+            refiller fill(*this, cdr);
+            for (auto p = m_begin; p != position; ++p)
             {
-                atraits::construct(get_alloc(), np, std::move(*p));
-                atraits::destroy(get_alloc(), p);
+                fill.construct(std::move(*p));
             }
-
-            for (; p != position + num; ++p)
+            for (auto p = position + num; p != m_end; ++p)
             {
-                atraits::destroy(get_alloc(), p);
+                fill.construct(std::move(*p));
             }
+            destroy_all();
+            fill.finish();
 
-            for (; np != cdr.ptr + s - num; ++p, ++np)
-            {
-                atraits::construct(get_alloc(), np, std::move(*p));
-                atraits::destroy(get_alloc(), p);
-            }
-
-            // we've moved from dyn memory, so deallocate the old one
-            atraits::deallocate(get_alloc(), m_begin, m_capacity);
-
-            position = cdr.ptr + (position - m_begin);
-            m_begin = cdr.ptr;
-            m_end = np;
-            m_capacity = StaticCapacity;
+            position = m_begin + offset;
         }
 
         return position;
@@ -1029,11 +987,11 @@ private:
         return ret;
     }
 
-    // fills an empty vector in a buffer from choose_data
-    // if filling it throws, leaves the vector empty in its current buffer
+    // fills a buffer from choose_data, which becomes the vector's once it has no elements in its current one
+    // if filling it throws, leaves the vector as it is in its current buffer
     struct refiller
     {
-        refiller(small_vector& v, choose_data_result cdr) : m_vec(v), m_data(cdr), m_end(cdr.ptr) {}
+        refiller(small_vector& v, choose_data_result cdr) : m_vec(v), m_data(cdr), m_end(cdr.ptr), m_hole(cdr.ptr), m_hole_end(cdr.ptr) {}
         refiller(const refiller&) = delete;
         refiller& operator=(const refiller&) = delete;
         ~refiller()
@@ -1041,6 +999,8 @@ private:
             if (!m_data.ptr) return; // finished
             for (auto p = m_data.ptr; p != m_end; ++p)
             {
+                if (p == m_hole) p = m_hole_end;
+                if (p == m_end) break;
                 atraits::destroy(m_vec.get_alloc(), p);
             }
             if (m_data.ptr != m_vec.m_begin && m_data.ptr != m_vec.static_begin_ptr())
@@ -1054,6 +1014,12 @@ private:
             atraits::construct(m_vec.get_alloc(), m_end, std::forward<U>(u));
             ++m_end;
         }
+        // leave a hole for n elements
+        void skip(size_t n)
+        {
+            m_hole = m_end;
+            m_end = m_hole_end = m_hole + n;
+        }
         void finish()
         {
             if (!m_vec.is_static() && m_vec.m_begin != m_data.ptr)
@@ -1069,6 +1035,8 @@ private:
         small_vector& m_vec;
         choose_data_result m_data;
         T* m_end;
+        T* m_hole;
+        T* m_hole_end;
     };
 
     allocator_type& get_alloc() { return *this; }
-- 
2.43.0


From 2765f83cfa56a971a06f02179e3701108a454010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 54/58] fix: pod_vector: stay valid when the allocator throws

Allocators may throw (or the default one is asked to). What was freed to be
replaced must not be left as the vector's buffer.
---
 include/itlib/pod_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/itlib/pod_vector.hpp b/include/itlib/pod_vector.hpp
index 55b895d..720b96e 100644
--- a/include/itlib/pod_vector.hpp
+++ b/include/itlib/pod_vector.hpp
@@ -778,10 +778,14 @@ private:
     {
         if (capacity <= m_capacity) return;
 
+        const auto new_cap = get_new_capacity(capacity);
+
         a_free_begin();
+        m_begin = m_end = nullptr;
+        m_capacity = 0;
 
-        m_capacity = get_new_capacity(capacity);
-        m_begin = m_end = pointer(a_malloc(m_capacity));
+        m_begin = m_end = pointer(a_malloc(new_cap));
+        m_capacity = new_cap;
     }
 
     // fill empty vector with given value
-- 
2.43.0


From 949934b63d13580f269cf75ea46c6c92936f07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 55/58] fix: dynamic_bitset: keep the size when the buffer
 can't grow

---
 include/itlib/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 4c45555..116cdd6 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -261,8 +261,8 @@ public:
             // clear the tail of the buf with zeroes in case they remain from previous ops
             m_buf.back() &= word_mask(pad) - 1;
         }
+        m_buf.resize(word_size(size)); // first, as it may throw
         m_size = size;
-        m_buf.resize(word_size(size));
     }
     void push_back(bool b)
     {
-- 
2.43.0


From 4b71bffb812298f99c98e64bfef44c995b530d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 56/58] fix: dynamic_bitset: include what defines size_t and
 ptrdiff_t

---
 include/itlib/dynamic_bitset.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/dynamic_bitset.hpp b/include/itlib/dynamic_bitset.hpp
index 116cdd6..ff3846b 100644
--- a/include/itlib/dynamic_bitset.hpp
+++ b/include/itlib/dynamic_bitset.hpp
@@ -125,6 +125,7 @@
 //
 #pragma once
 
+#include <cstddef>
 #include <cstdint>
 #include <vector>
 #include <cassert>
-- 
2.43.0


From 8ccb762fbc13c970f9048ee89198c44544f9039e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 57/58] fix: any: add the missing include guard, use
 std::nullptr_t

---
 include/itlib/any.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/itlib/any.hpp b/include/itlib/any.hpp
index f979d68..35b23cd 100644
--- a/include/itlib/any.hpp
+++ b/include/itlib/any.hpp
@@ -50,7 +50,9 @@
 // You can find unit tests in the official repo:
 // https://github.com/iboB/itlib/blob/master/test/
 //
+#pragma once
 #include <new>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <utility>
@@ -270,7 +272,7 @@ private:
 };
 
 template <typename T>
-const T* any_cast(nullptr_t) { return nullptr; }
+const T* any_cast(std::nullptr_t) { return nullptr; }
 
 template <typename T, typename Alloc>
 const T* any_cast(const any<Alloc>* a) {
-- 
2.43.0


From 720dfbc7518c0125cef7288bab023fba2feb361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:06 +0000
Subject: [PATCH 58/58] fix: tep_vector: include what defines size_t

---
 include/itlib/tep_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/itlib/tep_vector.hpp b/include/itlib/tep_vector.hpp
index fb9cf34..9b152c6 100644
--- a/include/itlib/tep_vector.hpp
+++ b/include/itlib/tep_vector.hpp
@@ -41,6 +41,7 @@
 // https://github.com/iboB/itlib/blob/master/test/
 //
 #pragma once
+#include <cstddef>
 #include <cstdint>
 
 namespace itlib {
-- 
2.43.0

