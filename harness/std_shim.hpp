// Stand-ins for the synchronization types of the standard library, for headers compiled under the fiber scheduler. Include before them.
#pragma once
#include "fiber.hpp"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <limits>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <thread>

namespace fib {
inline std::memory_order fail_order(std::memory_order o) { return o == std::memory_order_acq_rel ? std::memory_order_acquire : o == std::memory_order_release ? std::memory_order_relaxed : o; }
template <class T> struct Atomic {
    mutable int loc = S().newloc(); T v;
    static constexpr std::memory_order sc = std::memory_order_seq_cst;
    using value_type = T;
    constexpr static bool is_always_lock_free = true;
    Atomic() noexcept : v() {}
    Atomic(T x) noexcept : v(x) {}
    Atomic(const Atomic&) = delete; Atomic& operator=(const Atomic&) = delete;
    bool is_lock_free() const noexcept { return true; }
    static std::string txt(const T& x) { std::string s(reinterpret_cast<const char*>(&x), sizeof x); return s; }
    T load(std::memory_order o = sc) const noexcept { S().point(); T r = v; micro("al", loc, o); S().observe(loc, "l" + txt(r)); return r; }
    void store(T x, std::memory_order o = sc) noexcept { S().point(); S().other(); micro("as", loc, o); if (std::memcmp(&v, &x, sizeof x)) S().changed(loc); v = x; }
    T rmw(T x, std::memory_order o) noexcept { T r = v; micro("au", loc, o); if (std::memcmp(&v, &x, sizeof x)) S().changed(loc); v = x; S().observe(loc, "x" + txt(r)); return r; }
    T exchange(T x, std::memory_order o = sc) noexcept { S().point(); return rmw(x, o); }
    bool cas(T& e, T x, std::memory_order o, std::memory_order g) noexcept {
        S().point();
        if (v == e) { S().other(); micro("au", loc, o); if (std::memcmp(&v, &x, sizeof x)) S().changed(loc); v = x; return true; }
        micro("al", loc, g); bool same = false; (void)same; S().observe(loc, "c" + txt(v)); e = v; return false;
    }
    bool compare_exchange_strong(T& e, T x, std::memory_order o, std::memory_order g) noexcept { return cas(e, x, o, g); }
    bool compare_exchange_strong(T& e, T x, std::memory_order o = sc) noexcept { return cas(e, x, o, fail_order(o)); }
    bool compare_exchange_weak(T& e, T x, std::memory_order o, std::memory_order g) noexcept { if (S().cur >= 0 && !S().seq && !S().spurious && S().choose(2)) { S().spurious = 1; S().point(); micro("al", loc, g); e = v; return false; } return cas(e, x, o, g); }
    bool compare_exchange_weak(T& e, T x, std::memory_order o = sc) noexcept { return compare_exchange_weak(e, x, o, fail_order(o)); }
    template <class D> static T plus(T a, D b) { if constexpr (std::is_pointer<T>::value) return a + b; else return T(std::make_unsigned_t<T>(a) + std::make_unsigned_t<T>(b)); }
    template <class D> static T minus(T a, D b) { if constexpr (std::is_pointer<T>::value) return a - b; else return T(std::make_unsigned_t<T>(a) - std::make_unsigned_t<T>(b)); }
    using Diff = typename std::conditional<std::is_pointer<T>::value, std::ptrdiff_t, T>::type;
    T fetch_add(Diff d, std::memory_order o = sc) noexcept { S().point(); return rmw(plus(v, d), o); }
    T fetch_sub(Diff d, std::memory_order o = sc) noexcept { S().point(); return rmw(minus(v, d), o); }
    T fetch_and(T d, std::memory_order o = sc) noexcept { S().point(); return rmw(T(v & d), o); }
    T fetch_or(T d, std::memory_order o = sc) noexcept { S().point(); return rmw(T(v | d), o); }
    T fetch_xor(T d, std::memory_order o = sc) noexcept { S().point(); return rmw(T(v ^ d), o); }
    T operator++() noexcept { return plus(fetch_add(1), 1); }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return minus(fetch_sub(1), 1); }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(Diff d) noexcept { return plus(fetch_add(d), d); }
    T operator-=(Diff d) noexcept { return minus(fetch_sub(d), d); }
    T operator&=(T d) noexcept { return T(fetch_and(d) & d); }
    T operator|=(T d) noexcept { return T(fetch_or(d) | d); }
    T operator^=(T d) noexcept { return T(fetch_xor(d) ^ d); }
    operator T() const noexcept { return load(); }
    T operator=(T x) noexcept { store(x); return x; }
    void wait(T x, std::memory_order o = sc) const noexcept { while (load(o) == x) S().block(loc); }
    void notify_one() noexcept {}
    void notify_all() noexcept {}
};
struct AFlag {
    Atomic<bool> a; AFlag() noexcept : a(false) {} AFlag(int) noexcept : a(false) {} AFlag(const AFlag&) = delete;
    bool test_and_set(std::memory_order o = std::memory_order_seq_cst) noexcept { return a.exchange(true, o); }
    void clear(std::memory_order o = std::memory_order_seq_cst) noexcept { a.store(false, o); }
    bool test(std::memory_order o = std::memory_order_seq_cst) const noexcept { return a.load(o); }
    void wait(bool b, std::memory_order o = std::memory_order_seq_cst) const noexcept { a.wait(b, o); }
    void notify_one() noexcept {} void notify_all() noexcept {}
};
struct Tid {
    int n = -1; friend bool operator==(Tid a, Tid b) { return a.n == b.n; } friend bool operator!=(Tid a, Tid b) { return a.n != b.n; } friend bool operator<(Tid a, Tid b) { return a.n < b.n; }
};
struct Thread { using id = Tid; };
template <bool Rec_> struct Mtx {
    int loc = S().newloc(); int owner = -1, depth = 0;
    Mtx() = default; Mtx(const Mtx&) = delete;
    bool take() { if (depth && !(Rec_ && owner == self())) return false; owner = self(); ++depth; micro("au", loc, std::memory_order_acquire); if (depth == 1) S().changed(loc); return true; }
    void lock() { S().point(); S().other(); while (!take()) S().block(loc); }
    bool try_lock() { S().point(); S().other(); return take(); }
    void unlock() { S().point(); S().other(); micro("as", loc, std::memory_order_release); if (depth > 0 && --depth == 0) S().changed(loc); }
    template <class D> bool try_lock_for(D) { return try_lock(); }
    template <class D> bool try_lock_until(D) { return try_lock(); }
};
// shared_ptr: the pointer and the reference to its owner are plain data, the count is atomic
struct Ctrl { Atomic<long> strong; std::function<void()> kill; void* obj = nullptr; Ctrl() : strong(1) {} };
struct Pool { std::vector<std::unique_ptr<Ctrl>> all; static Pool& get() { static Pool g; return g; } template <class F> Ctrl* make(void* o, F f) { all.emplace_back(new Ctrl); all.back()->obj = o; all.back()->kill = f; return all.back().get(); } };
template <class T> void dispose(T* x) { delete x; }
template <class T> class SPtr {
    template <class U> friend class SPtr;
    T* p = nullptr; Ctrl* c = nullptr; Var v;
    void take() const { if (c) { if (c->strong.v <= 0) note("resurrect", c->obj); c->strong.fetch_add(1, std::memory_order_relaxed); } }
    static void note(const char* what, void* o);
    static void drop(Ctrl* c) { if (c && c->strong.fetch_sub(1, std::memory_order_acq_rel) == 1) { auto k = c->kill; if (k) k(); } }
public:
    using element_type = T;
    SPtr() noexcept {} SPtr(std::nullptr_t) noexcept {}
    template <class U> explicit SPtr(U* x) : p(x), c(Pool::get().make(x, [x] { dispose(x); })) { v.write(); }
    SPtr(const SPtr& o) noexcept { o.v.read(); p = o.p; S().point(); c = o.c; take(); v.write(); }
    SPtr(SPtr&& o) noexcept { o.v.read(); p = o.p; c = o.c; v.write(); o.v.write(); o.p = nullptr; o.c = nullptr; }
    template <class U> SPtr(const SPtr<U>& o) noexcept { o.v.read(); p = o.p; c = o.c; take(); v.write(); }
    template <class U> SPtr(const SPtr<U>& o, T* x) noexcept { o.v.read(); p = x; c = o.c; take(); v.write(); }
    ~SPtr() { v.write(); auto k = c; c = nullptr; p = nullptr; drop(k); }
    SPtr& operator=(const SPtr& o) noexcept { SPtr(o).swap(*this); return *this; }
    SPtr& operator=(SPtr&& o) noexcept { SPtr(std::move(o)).swap(*this); return *this; }
    void swap(SPtr& o) noexcept { v.read(); T* a = p; S().point(); o.v.read(); T* b = o.p; v.write(); p = b; S().point(); o.v.write(); o.p = a; S().point(); Ctrl* x = c; Ctrl* y = o.c; v.write(); c = y; S().point(); o.v.write(); o.c = x; }
    void reset() noexcept { SPtr().swap(*this); }
    template <class U> void reset(U* x) { SPtr(x).swap(*this); }
    T* get() const noexcept { v.read(); return p; }
    T& operator*() const noexcept { return *get(); }
    T* operator->() const noexcept { return get(); }
    explicit operator bool() const noexcept { return get(); }
    const void* fib_owned() const noexcept { return c ? c->obj : nullptr; } // the object whose life it shares
    long use_count() const noexcept { v.read(); return c ? c->strong.load(std::memory_order_relaxed) : 0; }
    bool unique() const noexcept { return use_count() == 1; }
    template <class U> bool owner_before(const SPtr<U>& o) const noexcept { v.read(); o.v.read(); return c < o.c; }
    template <class U> friend bool operator==(const SPtr& a, const SPtr<U>& b) noexcept { return a.get() == b.get(); }
    template <class U> friend bool operator!=(const SPtr& a, const SPtr<U>& b) noexcept { return a.get() != b.get(); }
    friend bool operator==(const SPtr& a, std::nullptr_t) noexcept { return !a.get(); }
    friend bool operator!=(const SPtr& a, std::nullptr_t) noexcept { return !!a.get(); }
    friend bool operator==(std::nullptr_t, const SPtr& a) noexcept { return !a.get(); }
    friend bool operator!=(std::nullptr_t, const SPtr& a) noexcept { return !!a.get(); }
    friend void swap(SPtr& a, SPtr& b) noexcept { a.swap(b); }
};
template <class T> void SPtr<T>::note(const char* what, void* o) { Rec r; r.str("op", what).num("t", self()).num("p", *static_cast<int*>(o)); S().emit(r); } // pointees begin with their number
}
namespace std {
template <class T> using fib_atomic = ::fib::Atomic<T>;
using fib_atomic_flag = ::fib::AFlag;
using fib_mutex = ::fib::Mtx<false>; using fib_recursive_mutex = ::fib::Mtx<true>; using fib_timed_mutex = ::fib::Mtx<false>; using fib_recursive_timed_mutex = ::fib::Mtx<true>;
template <class T> using fib_shared_ptr = ::fib::SPtr<T>;
using fib_thread = ::fib::Thread;
namespace fib_this_thread {
inline ::fib::Tid get_id() noexcept { return ::fib::Tid{::fib::self()}; }
inline void yield() noexcept { ::fib::S().point(); }
template <class D> void sleep_for(D) { ::fib::S().point(); }
}
inline void fib_atomic_thread_fence(memory_order o) noexcept { ::fib::S().point(); ::fib::micro("f", 0, o); }
}
#define atomic fib_atomic
#define atomic_flag fib_atomic_flag
#define mutex fib_mutex
#define recursive_mutex fib_recursive_mutex
#define timed_mutex fib_timed_mutex
#define recursive_timed_mutex fib_recursive_timed_mutex
#define thread fib_thread
#define this_thread fib_this_thread
#define atomic_thread_fence fib_atomic_thread_fence
