// Driver for any over several allocators.
#include "vh.hpp"
#include <memory_resource>
#include <typeinfo>
#include <itlib/any.hpp>
#include <itlib/pmr_allocator.hpp>
using namespace vh;

using A1 = Tr<1>; using A2 = Tr<2, true, 64>; using A3 = Tr<3, false>;
using S4 = std::string; using V5 = std::vector<int>; using P6 = std::unique_ptr<int>; using I7 = int; using C8 = const char*;
struct alignas(512) W9 { int v; W9(int i = 0) : v(i) {} };
struct B10 { int v[17500]; B10(int i = 0) { for (int& x : v) x = i; } int get() const { for (int x : v) if (x != v[0]) return -5; return v[0]; } };
constexpr int NT = 10;
template <class T> struct Kind;
#define KIND(N, T, MK, GET, CP, TRK) template <> struct Kind<T> { static constexpr int id = N; static constexpr bool copy = CP, tracked = TRK; static T mk(int v) { return MK; } static int get(const T& x) { return GET; } };
KIND(1, A1, A1(v), x.v, true, true)
KIND(2, A2, A2(v), x.v, true, true)
KIND(3, A3, A3(v), x.v, false, true)
KIND(4, S4, Val<std::string>::mk(v), Val<std::string>::get(x), true, false)
KIND(5, V5, V5(size_t(v + 1), v), x.empty() ? -1 : int(x.size()) == x[0] + 1 ? x[0] : -5, true, false)
KIND(6, P6, P6(new int(v)), x ? *x : -1, false, false)
KIND(7, I7, v, x, true, false)
static const char* texts[] = {"a", "b", "c", "d"};
KIND(8, C8, texts[v & 3], x == texts[0] ? 0 : x == texts[1] ? 1 : x == texts[2] ? 2 : x == texts[3] ? 3 : -5, true, false)
KIND(9, W9, W9(v), reinterpret_cast<uintptr_t>(&x) % 512 ? -5 : x.v, true, false)
KIND(10, B10, B10(v), x.get(), true, false)
template <class F> void with(int t, F&& f) {
    switch (t) { case 1: f((A1*)0); break; case 2: f((A2*)0); break; case 3: f((A3*)0); break; case 4: f((S4*)0); break; case 5: f((V5*)0); break; case 6: f((P6*)0); break; case 7: f((I7*)0); break; case 9: f((W9*)0); break; case 10: f((B10*)0); break; default: f((C8*)0); }
}

using DefAl = itlib::any<>::allocator_type;
inline void* balloc(size_t n, size_t a, int id) {
    auto& m = mem();
    if (m.afuse >= 0 && m.afuse-- == 0) throw std::bad_alloc();
    void* p = ::operator new(n, std::align_val_t(a));
    m.emit({5, m.add_block(p, n, 1), long(n * 1024 + a), id});
    return p;
}
inline void bfree(void* p, size_t n, size_t a, int id) {
    int b = mem().remove_block(p);
    mem().emit({6, b, long(n * 1024 + a), id});
    if (b >= 0) ::operator delete(p, std::align_val_t(a));
}
struct BA { // stateful
    int id; BA(int i = 1) : id(i) {}
    void* allocate_bytes(size_t n, size_t a) { return balloc(n, a, id); }
    void deallocate_bytes(void* p, size_t n, size_t a) { bfree(p, n, a, id); }
};
struct BC : BA { using BA::BA; BC(const BC&) = default; BC& operator=(const BC&) = delete; BC() = default; }; // not assignable
struct BE { void* allocate_bytes(size_t n, size_t a) { return balloc(n, a, 0); } void deallocate_bytes(void* p, size_t n, size_t a) { bfree(p, n, a, 0); } }; // stateless
struct Res : std::pmr::memory_resource {
    int id; Res(int i) : id(i) {}
    void* do_allocate(size_t n, size_t a) override { return balloc(n, a, id); }
    void do_deallocate(void* p, size_t n, size_t a) override { bfree(p, n, a, id); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
static Res res1(1), res2(2);

template <class Al> struct AlK { static constexpr bool logged = true, has_id = false; static Al mk(int) { return Al(); } static int id(const Al&) { return 0; } };
template <> struct AlK<BA> { static constexpr bool logged = true, has_id = true; static BA mk(int i) { return BA(i); } static int id(const BA& a) { return a.id; } };
template <> struct AlK<BC> { static constexpr bool logged = true, has_id = true; static BC mk(int i) { return BC(i); } static int id(const BC& a) { return a.id; } };
template <> struct AlK<itlib::pmr_allocator<>> { static constexpr bool logged = true, has_id = true; static itlib::pmr_allocator<> mk(int i) { return itlib::pmr_allocator<>(i == 2 ? &res2 : &res1); } static int id(const itlib::pmr_allocator<>& a) { return static_cast<Res*>(a.resource())->id; } };
template <> struct AlK<DefAl> { static constexpr bool logged = false, has_id = false; static DefAl mk(int) { return {}; } static int id(const DefAl&) { return 0; } };

template <class Al> struct Run {
    using Any = itlib::any<Al>; using K = AlK<Al>;
    alignas(Any) unsigned char store[3][sizeof(Any)];
    Any* m[3];
    std::string state(int k) {
        const Any& a = *m[k]; Any& ma = *m[k]; Rec r;
        int t = 0, hits = 0, v = -1, slot = 0; bool ok = true;
        for (int i = 1; i <= NT; ++i) with(i, [&](auto* n) {
            using T = std::remove_pointer_t<decltype(n)>;
            const T* p = itlib::any_cast<T>(&a); T* q = itlib::any_cast<T>(&ma); const T* c = itlib::any_cast<const T>(&a);
            if (p != q || c != p) ok = false;
            if ((a.type() == typeid(T)) != !!p) ok = false;
            if (p) {
                ++hits; t = i; v = Kind<T>::get(*p);
                if constexpr (Kind<T>::tracked) slot = p->slot();
                if (a.data() != p || ma.data() != p || a.template tdata<T>() != p || ma.template tdata<T>() != p) ok = false;
            }
        });
        if (itlib::any_cast<short>(&a) || itlib::any_cast<unsigned>(&a) || itlib::any_cast<const char>(&a)) ok = false;
        if (!hits && (a.data() || a.type() != typeid(void))) ok = false;
        int blk = 0;
        if (a.data()) { auto b = mem().find(a.data()); blk = b ? b->id : 0; }
        r.num("t", t).num("h", hits).num("v", v).num("al", K::id(a.get_allocator())).b("hv", a.has_value()).b("bo", bool(a)).b("ok", ok).num("sl", slot).num("bl", blk);
        return r.obj();
    }
    void run(const Script& s) {
        mem().reset(); Watch::clear();
        std::pmr::set_default_resource(&res1);
        for (int k = 0; k < 3; ++k) m[k] = new (store[k]) Any();
        Rec cfg; cfg.str("name", s.cfg).b("lg", K::logged).b("ai", K::has_id);
        Trace t(s.id, cfg);
        for (auto& op : s.ops) { Rec r; r.str("op", op.name); if (step(op, r)) t.ev(r); }
        for (int k = 0; k < 3; ++k) m[k]->~Any();
        Rec r; r.str("op", "end").raw("mem", mem().drain()).num("leak", Watch::count()); t.ev(r);
    }
    bool step(const Op& op, Rec& r) { // op,fuse,o,p,...   fuse: 0 none, f>0: element construction f throws, f<0: allocation -f throws
        const std::string& n = op.name;
        long fz = op.arg(0); int o = int(op.arg(1) - 1) % 3, p = (o + 1 + int(op.arg(2) & 1)) % 3;
        Any& a = *m[o]; Any& b = *m[p]; const Any& cb = b; const Any& ca = a;
        long ret = -1; bool own = false;
        int t = 1 + int(std::labs(op.arg(3)) % NT), v = int(op.arg(4) & 3), mode = int(op.arg(5) & 7); int al = 1 + int(op.arg(6) & 1);
        r.num("fz", fz).num("o", o + 1).num("p", p + 1).num("t", t).num("v", v).num("md", mode).num("a", al);
        int src = v; // value of an lvalue source afterwards
        auto arm = [&] { mem().fuse = fz > 0 ? fz - 1 : -1; mem().afuse = fz < 0 ? -fz - 1 : -1; };
        auto disarm = [&] { mem().fuse = mem().afuse = -1; };
        struct D { ~D() { mem().fuse = mem().afuse = -1; } };
        std::string ex = guarded([&] {
            Watch w; D d;
            if (n == "c_def") { a.~Any(); new (store[o]) Any(); }
            else if (n == "c_al") { a.~Any(); if (mode & 1) new (store[o]) Any(std::allocator_arg, K::mk(al)); else { const Al ca = K::mk(al); new (store[o]) Any(ca); } }
            else if (n == "c_copy") { a.~Any(); try { arm(); new (store[o]) Any(cb); } catch (...) { disarm(); new (store[o]) Any(); throw; } }
            else if (n == "c_copyn") { a.~Any(); try { arm(); new (store[o]) Any(b); } catch (...) { disarm(); new (store[o]) Any(); throw; } } // from a non-const lvalue
            else if (n == "c_copya") { a.~Any(); try { arm(); new (store[o]) Any(cb, K::mk(al)); } catch (...) { disarm(); new (store[o]) Any(); throw; } }
            else if (n == "c_move") { a.~Any(); new (store[o]) Any(std::move(b)); }
            else if (n == "a_copy") { arm(); if (mode & 1) a = b; else a = cb; }
            else if (n == "a_move") a = std::move(b);
            else if (n == "a_self") { arm(); a = ca; }
            else if (n == "a_selfm") { Any& x = a; a = std::move(x); }
            else if (n == "cfrom") { arm(); a.copy_from(cb); }
            else if (n == "cfrom_self") { arm(); a.copy_from(ca); }
            else if (n == "swap") { using std::swap; swap(a, b); }
            else if (n == "reset") a.reset();
            else if (n == "c_val" || n == "a_val" || n == "c_vala") with(t, [&](auto* q) { // modes: 0 rvalue, 1 lvalue, 2 const lvalue
                using T = std::remove_pointer_t<decltype(q)>;
                T x = Kind<T>::mk(v);
                struct Src { T& x; int& s; ~Src() { s = Kind<T>::get(x); } };
                { Src keep{x, src};
                int md = Kind<T>::copy ? mode % 3 : 0;
                auto put = [&](auto&& y) {
                    if (n == "a_val") { arm(); a = std::forward<decltype(y)>(y); return; }
                    a.~Any();
                    try { arm(); if (n == "c_val") new (store[o]) Any(std::forward<decltype(y)>(y)); else new (store[o]) Any(std::allocator_arg, K::mk(al), std::forward<decltype(y)>(y)); }
                    catch (...) { disarm(); new (store[o]) Any(); throw; }
                };
                if (md == 0) put(std::move(x));
                else if constexpr (Kind<T>::copy) { const T& cx = x; if (md == 1) put(x); else put(cx); }
                if (md == 0) src = v;
                disarm(); }
                if (!Kind<T>::copy || mode % 3 == 0) src = v;
            });
            else if (n == "a_own") with(t, [&](auto* q) { // assign the held value to its own holder
                using T = std::remove_pointer_t<decltype(q)>;
                if constexpr (Kind<T>::copy) { if (T* x = itlib::any_cast<T>(&a)) { own = true; arm(); if (mode & 1) a = *x; else a = std::move(*x); } }
            });
            else if (n == "empl") with(t, [&](auto* q) {
                using T = std::remove_pointer_t<decltype(q)>;
                T x = Kind<T>::mk(v);
                arm();
                if constexpr (std::is_same<T, A1>::value || std::is_same<T, A2>::value) { auto& e = (mode & 1) ? a.template emplace<T>(v) : a.template emplace<T>(v - 1, 1); ret = &e == a.data(); }
                else { T& e = a.template emplace<T>(std::move(x)); ret = &e == a.data(); }
            });
            else if (n == "cast") with(t, [&](auto* q) { // modes: 0 const ref, 1 ref, 2 copy, 3 const copy, 4 const value type, 5 move out, 6 rvalue ref
                using T = std::remove_pointer_t<decltype(q)>;
                arm();
                if (mode == 0 || mode == 7) { const T& x = itlib::any_cast<const T&>(ca); disarm(); ret = Kind<T>::get(x); if (&x != ca.data()) ret = -3; }
                else if (mode == 1) { T& x = itlib::any_cast<T&>(a); ret = Kind<T>::get(x); if (&x != ca.data()) ret = -3; }
                else if (mode == 5) { T x = itlib::any_cast<T>(std::move(a)); disarm(); ret = Kind<T>::get(x); }
                else if (mode == 6) { T x = itlib::any_cast<T&&>(std::move(a)); disarm(); ret = Kind<T>::get(x); }
                else if constexpr (Kind<T>::copy) {
                    if (mode == 2) { T x = itlib::any_cast<T>(a); disarm(); ret = Kind<T>::get(x); }
                    else if (mode == 3) { T x = itlib::any_cast<T>(ca); disarm(); ret = Kind<T>::get(x); }
                    else { const T x = itlib::any_cast<const T>(a); disarm(); ret = Kind<T>::get(x); }
                } else { const T* x = itlib::any_cast<T>(&ca); if (!x) throw std::bad_cast(); ret = Kind<T>::get(*x); }
            });
            else if (n == "set") with(t, [&](auto* q) { // write through a cast
                using T = std::remove_pointer_t<decltype(q)>;
                T x = Kind<T>::mk(v);
                if (mode & 1) itlib::any_cast<T&>(a) = std::move(x); else { T* y = itlib::any_cast<T>(&a); if (!y) throw std::bad_cast(); *y = std::move(x); }
            });
            else if (n == "null") { Any* z = nullptr; const Any* cz = nullptr; ret = !itlib::any_cast<int>(z) && !itlib::any_cast<int>(cz) && !itlib::any_cast<int>(nullptr); }
        });
        if (n == "a_own" && !own) return false;
        // an object an operation threw out of construction is gone; the fuse of an operation is off again
        disarm();
        r.str("ex", ex).num("r", ret).num("src", src).raw("mem", mem().drain()).raw("s", "[" + state(0) + "," + state(1) + "," + state(2) + "]");
        mem().drain();
        return true;
    }
};
template <class Al> void go(const Script& s) { static Run<Al> r; r.run(s); }
#define R(N, ...) static Reg r_##N(#N, go<__VA_ARGS__>);
#if PART == 0
// the system's memory runs out as well
extern "C" void* aligned_alloc(size_t al, size_t n) {
    auto& m = mem(); if (m.afuse >= 0 && m.afuse-- == 0) return nullptr;
    void* p = nullptr; return posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n) ? nullptr : p;
}
R(ba, BA) R(dflt, DefAl)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
R(bc, BC) R(be, BE)
#elif PART == 2
R(pmr, itlib::pmr_allocator<>)
#endif
