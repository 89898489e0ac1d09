// Driver for pod_vector: four vectors (two of T, two of U) over one instrumented allocator type.
#include "vh.hpp"
#include <itlib/pod_vector.hpp>
#include <sanitizer/asan_interface.h>
#include <deque>
#include <set>
using namespace vh;

// ------------------------------------------------------------------ allocator
// Hands out pieces of zones; what lies outside of a live piece is poisoned, so touching it ends the run.
struct Zone { char* mem; char* base; size_t size, room; int id; bool live; };
struct Zones {
    std::vector<Zone> z; int next = 1; unsigned coin = 7; std::string log; bool deny = false;
    static Zones& get() { static Zones x; return x; }
    void reset() { for (auto& x : z) { __asan_unpoison_memory_region(x.mem, x.room + 64); ::free(x.mem); } z.clear(); next = 1; coin = 7; log.clear(); }
    unsigned flip() { coin = coin * 1103515245u + 12345u; return coin >> 16; }
    void emit(std::initializer_list<long> l) { log += log.empty() ? "[" : ",["; bool f = true; for (long x : l) { if (!f) log += ','; f = false; log += std::to_string(x); } log += ']'; }
    std::string drain() { std::string r = "[" + log + "]"; log.clear(); return r; }
    Zone* at(const void* p) { for (auto& x : z) if (x.live && x.base == p) return &x; return nullptr; }
    Zone* in(const void* p) { for (auto& x : z) if (x.live && (char*)p >= x.base && (char*)p <= x.base + x.size) return &x; return nullptr; }
    Zone& make(size_t size, size_t align) {
        Zone x; x.size = size; x.room = size * 3 + 64;
        x.mem = static_cast<char*>(::malloc(x.room + 64));
        uintptr_t a = (uintptr_t(x.mem) + 15) / 16 * 16;
        x.base = (char*)a;
        if (align < 16) x.base += 8;                       // exactly the promised alignment
        else if (flip() % 2) x.base += 16;
        size_t off = size_t(x.base - x.mem);
        memset(x.mem, 0xCD, x.room + 64);
        x.room = x.room + 64 - off - 24;
        x.id = next++; x.live = true;
        limit(x);
        z.push_back(x);
        return z.back();
    }
    void request(int al) { if (!deny) return; deny = false; emit({9, al}); throw std::bad_alloc(); }
    void limit(Zone& x) { __asan_unpoison_memory_region(x.base, x.room); __asan_poison_memory_region(x.base + x.size, x.room - x.size); }
    void kill(Zone& x) { x.live = false; __asan_poison_memory_region(x.base, x.room); }
};
inline Zones& zz() { return Zones::get(); }

template <int Align, bool Expand, int Waste, bool Zero, class S = size_t>
struct PA {
    using size_type = S;
    int id = 1;
    static constexpr bool expands = Expand, zero = Zero; static constexpr int align = Align;
    static constexpr size_type max_size() { return ~size_type(0); }
    static constexpr bool zero_fill_new() { return Zero; }
    static constexpr size_type alloc_align() { return Align; }
    static constexpr bool has_expand() { return Expand; }
    static constexpr size_type realloc_wasteful_copy_size() { return Waste; }
    void* malloc(size_type n) { zz().request(id); auto& x = zz().make(n, Align); zz().emit({5, x.id, long(n), id}); return x.base; }
    void free(void* p) {
        if (!p) return;
        Zone* x = zz().at(p);
        zz().emit({6, x ? x->id : -1, id});
        if (x) zz().kill(*x);
    }
    void* realloc(void* p, size_type n) {
        zz().request(id);
        Zone* x = p ? zz().at(p) : nullptr;
        int old = p ? (x ? x->id : -1) : 0;
        if (x && n <= x->room && zz().flip() % 2) { x->size = n; zz().limit(*x); zz().emit({7, old, old, long(n), id}); return p; }
        size_t k = x ? std::min(x->size, size_t(n)) : 0;
        char* from = x ? x->base : nullptr;
        auto& y = zz().make(n, Align);
        if (k) memcpy(y.base, from, k);
        char* res = y.base; int nid = y.id;
        if (old > 0) zz().kill(*zz().at(p));
        zz().emit({7, old, nid, long(n), id});
        return res;
    }
    bool expand(void* p, size_type n) {
        Zone* x = zz().at(p);
        bool ok = x && n <= x->room && zz().flip() % 3;
        if (ok) { x->size = n; zz().limit(*x); }
        zz().emit({8, x ? x->id : -1, long(n), ok, id});
        return ok;
    }
};

// ------------------------------------------------------------------ elements: sequences of units
template <int G> struct Unit { // G bytes holding a small number
    static void put(unsigned char* p, int v) {
        for (int k = 0; k < G; ++k) p[k] = k < 4 ? (unsigned char)(unsigned(v) >> (8 * k)) : v ? (unsigned char)(v * 31 + k) : 0;
        if (G == 1) p[0] = (unsigned char)v;
    }
    static int get(const unsigned char* p) {
        unsigned v = 0; for (int k = 0; k < G && k < 4; ++k) v |= unsigned(p[k]) << (8 * k);
        if (v > 2000000000u) return -5;
        for (int k = 4; k < G; ++k) if (p[k] != (v ? (unsigned char)(int(v) * 31 + k) : 0)) return -5;
        return int(v);
    }
};
template <int N, int A> struct alignas(A) Pod { unsigned char b[N]; };
using u8 = Pod<1, 1>; using u16 = Pod<2, 2>; using u32 = Pod<4, 4>; using s12 = Pod<12, 4>; using s24 = Pod<24, 8>; using s6 = Pod<6, 2>;
using w32 = Pod<32, 32>; using w64 = Pod<64, 64>; using w128 = Pod<128, 64>; using w96 = Pod<96, 32>; using a128 = Pod<128, 128>; using a256 = Pod<256, 128>; using x16 = Pod<16, 16>; using x48 = Pod<48, 16>;
constexpr int gcd(int a, int b) { return b ? gcd(b, a % b) : a; }

template <class T, class U, class A> struct Run {
    static constexpr int G = gcd(sizeof(T), sizeof(U));
    using VT = itlib::pod_vector<T, A>; using VU = itlib::pod_vector<U, A>;
    VT* t[2]; VU* u[2];
    alignas(128) unsigned char mt[2][sizeof(VT)], mu[2][sizeof(VU)];
    int counter = 0;
    int next() { counter = counter % 250 + 1; return counter; }
    template <class E> static std::vector<int> units(const E& e) { std::vector<int> r; for (size_t k = 0; k < sizeof(E); k += G) r.push_back(Unit<G>::get((const unsigned char*)&e + k)); return r; }
    template <class E> E mk() { E e; for (size_t k = 0; k < sizeof(E); k += G) Unit<G>::put((unsigned char*)&e + k, next()); return e; }
    template <class E> std::vector<E> mks(long n) { std::vector<E> r; for (long i = 0; i < n; ++i) r.push_back(mk<E>()); return r; }
    static std::string js(const std::vector<int>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
    template <class It> static std::string jl(It b, It e) { std::string r = "["; bool f = true; for (; b != e; ++b) { if (!f) r += ','; f = false; r += js(units(*b)); } return r + "]"; }
    template <class E> static std::string jl(const std::vector<E>& v) { return jl(v.begin(), v.end()); }

    template <class V> static std::string state(V& x) {
        Rec r;
        using E = typename V::value_type;
        bool bad = uintptr_t(x.data()) % alignof(E);
        r.raw("c", bad ? "[]" : jl(x.begin(), x.end())).num("n", (long)x.size()).num("cap", (long)x.capacity()).b("mis", bad).num("bs", (long)x.byte_size());
        Zone* z = x.data() ? zz().in(x.data()) : nullptr;
        r.num("blk", x.data() ? (z ? z->id : -1) : 0).num("off", z ? long((char*)x.data() - z->base) : 0).num("al", x.get_allocator().id);
        return r.obj();
    }
    std::string states() { return "[" + state(*t[0]) + "," + state(*t[1]) + "," + state(*u[0]) + "," + state(*u[1]) + "]"; }

    void run(const Script& s) {
        zz().reset();
        counter = 0;
        Rec cfg;
        cfg.str("name", s.cfg).b("ex", A::expands).b("zero", A::zero).num("zt", sizeof(T) / G).num("zu", sizeof(U) / G).num("bt", sizeof(T)).num("bu", sizeof(U));
        for (int k = 0; k < 2; ++k) {
            A a; a.id = k + 1; t[k] = new (mt[k]) VT(a);
            a.id = k + 3; u[k] = new (mu[k]) VU(a);
        }
        cfg.raw("init", states());
        Trace tr(s.id, cfg);
        for (auto op : s.ops) {
            // x_: the first request for memory the operation makes is refused
            const bool deny = op.name.compare(0, 2, "x_") == 0;
            if (deny) op.name.erase(0, 2);
            struct Off { ~Off() { zz().deny = false; } } off;
            int o = int((op.arg(0, 1) - 1) & 3);
            Rec r; r.str("op", op.name).num("o", o + 1);
            bool done = true, threw = false;
            zz().deny = deny;
            try {
            if (op.name == "rc_copy" || op.name == "rc_take") {
                int y = int(op.arg(1) & 1); r.num("y", (o < 2 ? 2 : 0) + y + 1);
                if (sizeof(typename A::size_type) < sizeof(size_t) && op.name == "rc_copy" && (o < 2 ? u[y]->byte_size() : t[y]->byte_size()) + 16 > 255) continue;
                if (op.name == "rc_copy") { if (o < 2) t[o]->recast_copy_from(*u[y]); else u[o - 2]->recast_copy_from(*t[y]); }
                else { if (o < 2) t[o]->recast_take_from(std::move(*u[y])); else u[o - 2]->recast_take_from(std::move(*t[y])); }
                r.num("r", -1);
            }
            else { r.num("y", (o ^ 1) + 1); done = o < 2 ? step<VT>(op, r, *t[o], *t[1 - o], mt[o], o) : step<VU>(op, r, *u[o - 2], *u[3 - o], mu[o - 2], o); }
            } catch (std::bad_alloc&) { threw = true; r.num("r", -1); }
            if (!done) continue;
            r.b("ex", threw);
            r.raw("mem", zz().drain()).raw("s", states());
            tr.ev(r);
        }
        Rec r; r.str("op", "end").b("ex", false).num("o", 1).num("y", 2).num("r", -1);
        for (int k = 0; k < 2; ++k) { t[k]->~VT(); u[k]->~VU(); }
        r.raw("mem", zz().drain());
        std::string e; for (int k = 0; k < 4; ++k) e += std::string(k ? "," : "") + "{\"c\":[],\"n\":0,\"cap\":0,\"mis\":false,\"bs\":0,\"blk\":0,\"off\":0,\"al\":0}";
        r.raw("s", "[" + e + "]");
        tr.ev(r);
    }

    template <class V, class... Args> static void build(V& a, void* place, const A& al, Args&&... args) { // what could not be built is replaced by an empty one
        a.~V();
        try { new (place) V(std::forward<Args>(args)...); } catch (...) { new (place) V(al); throw; }
    }
    template <class V> bool step(const Op& op, Rec& r, V& a, V& b, void* place, int o) {
        using E = typename V::value_type;
        const std::string& n = op.name;
        long sz = long(a.size()), ret = -1;
        if (sizeof(typename A::size_type) < sizeof(size_t)) { // what the size type can't express is not asked for
            long lim = long((size_t(typename A::size_type(~typename A::size_type(0))) - (size_t(A::align) >= alignof(E) ? 0 : alignof(E))) / sizeof(E));
            static const std::set<std::string> one = {"push", "push_self", "emplb", "emplb_self", "emplb0", "ins", "ins_self", "empl", "empl_self"}, add = {"ins_fill", "ins_fill_self", "ins_range", "ins_il"},
                all = {"c_n", "c_fill", "c_range", "c_il", "as_fill", "as_range", "as_il", "as_self", "res", "res_v", "res_self", "reserve"};
            long want = one.count(n) ? sz + 1 : add.count(n) ? sz + op.arg(2) : all.count(n) ? op.arg(1) : 0;
            if (want > lim) return false;
        }
        auto ARG = [&](size_t i, long lim) -> long { long x = op.arg(i + 1); return lim > 0 ? ((x % lim) + lim) % lim : 0; };
        auto P = [&](size_t i) { return ARG(i, sz + 1); };
        auto one = [&] { E e = mk<E>(); r.raw("vs", "[" + js(units(e)) + "]"); return e; };
        auto rep = [&](long k) { E e = mk<E>(); std::vector<E> v(size_t(k), e); r.raw("vs", jl(v)).num("n", k); return e; };
        auto many = [&](long k) { auto v = mks<E>(k); r.raw("vs", jl(v)).num("n", k); return v; };
        auto self = [&](size_t i) { long x = ARG(i, sz); r.num("i", x); return x; };
        A al; al.id = o + 1 + 10 * (counter % 3);
        if (n == "c_def") { build(a, place, al, al); }
        else if (n == "c_n") { long k = op.arg(1); r.num("n", k); build(a, place, al, size_t(k), al); }
        else if (n == "c_fill") { E e = rep(op.arg(1)); build(a, place, al, size_t(op.arg(1)), e, al); }
        else if (n == "c_range" || n == "as_range") {
            long k = op.arg(1); auto v = many(k);
            auto go = [&](auto f, auto l) { if (n == "as_range") a.assign(f, l); else { build(a, place, al, f, l, al); } };
            if (k == 0 && sz % 2 == 0) { const E* f = nullptr; go(f, f); } else if (k % 3 == 1) { std::deque<E> d(v.begin(), v.end()); go(d.begin(), d.end()); } else if (k % 3 == 2) { const E* f = v.data(); go(f, f + k); } else go(v.begin(), v.end());
        }
        else if (n == "c_il" || n == "as_il" || n == "ins_il") {
            bool ins = n == "ins_il"; long p = ins ? P(0) : 0; long k = op.arg(ins ? 2 : 1) % 10; auto v = many(k); if (ins) r.num("p", p);
            auto go = [&](std::initializer_list<E> l) { if (ins) ret = a.insert(a.begin() + p, l) - a.begin(); else if (n == "as_il") a.assign(l); else { build(a, place, al, l, al); } };
            with_il<9, E>(size_t(k), [&](int i) { return v[i]; }, go);
        }
        else if (n == "c_copy") { build(a, place, al, static_cast<const V&>(b)); }
        else if (n == "c_copya") { build(a, place, al, static_cast<const V&>(b), al); }
        else if (n == "c_move") { build(a, place, al, std::move(b)); }
        else if (n == "a_copy") a = static_cast<const V&>(b);
        else if (n == "a_move") a = std::move(b);
        else if (n == "a_self") { const V& x = a; a = x; }
        else if (n == "a_selfm") { V& x = a; a = std::move(x); }
        else if (n == "as_fill") { E e = rep(op.arg(1)); a.assign(size_t(op.arg(1)), e); }
        else if (n == "as_self") { if (!sz) return false; long k = op.arg(1); r.num("n", k); long i = self(1); a.assign(size_t(k), a[i]); }
        else if (n == "push") { E e = one(); ret = &a.push_back(e) - a.data(); }
        else if (n == "push_self") { if (!sz) return false; long i = self(0); ret = &a.push_back(a[i]) - a.data(); }
        else if (n == "emplb") { E e = one(); ret = &a.emplace_back(e) - a.data(); }
        else if (n == "emplb_self") { if (!sz) return false; long i = self(0); ret = &a.emplace_back(a[i]) - a.data(); }
        else if (n == "emplb0") { ret = &a.emplace_back() - a.data(); }
        else if (n == "ins") { long p = P(0); r.num("p", p); E e = one(); ret = a.insert(a.begin() + p, e) - a.begin(); }
        else if (n == "ins_self") { if (!sz) return false; long p = P(0); r.num("p", p); long i = self(1); ret = a.insert(a.cbegin() + p, a[i]) - a.begin(); }
        else if (n == "empl") { long p = P(0); r.num("p", p); E e = one(); ret = a.emplace(a.begin() + p, e) - a.begin(); }
        else if (n == "empl_self") { if (!sz) return false; long p = P(0); r.num("p", p); long i = self(1); ret = a.emplace(a.begin() + p, a[i]) - a.begin(); }
        else if (n == "ins_fill") { long p = P(0), k = op.arg(2); r.num("p", p); E e = rep(k); ret = a.insert(a.begin() + p, size_t(k), e) - a.begin(); }
        else if (n == "ins_fill_self") { if (!sz) return false; long p = P(0), k = op.arg(2); r.num("p", p).num("n", k); long i = self(2); ret = a.insert(a.begin() + p, size_t(k), a[i]) - a.begin(); }
        else if (n == "ins_range") {
            long p = P(0), k = op.arg(2); r.num("p", p); auto v = many(k);
            if (k == 0 && p % 2 == 0) { const E* f = nullptr; ret = a.insert(a.begin() + p, f, f) - a.begin(); }
            else if (k % 3 == 1) { std::deque<E> d(v.begin(), v.end()); ret = a.insert(a.begin() + p, d.begin(), d.end()) - a.begin(); }
            else if (k % 3 == 2) { const E* f = v.data(); ret = a.insert(a.begin() + p, f, f + k) - a.begin(); }
            else ret = a.insert(a.begin() + p, v.begin(), v.end()) - a.begin();
        }
        else if (n == "er") { if (!sz) return false; long p = ARG(0, sz); r.num("p", p); ret = a.erase(a.begin() + p) - a.begin(); }
        else if (n == "er_range") { long p = P(0), q = P(1); if (p > q) std::swap(p, q); r.num("p", p).num("q", q); ret = a.erase(a.begin() + p, a.begin() + q) - a.begin(); }
        else if (n == "pop") { if (!sz) return false; a.pop_back(); }
        else if (n == "clear") a.clear();
        else if (n == "res") { long k = op.arg(1); r.num("n", k); ret = a.resize(size_t(k)); }
        else if (n == "res_v") { long k = op.arg(1); E e = mk<E>(); r.num("n", k).raw("v", js(units(e))); ret = a.resize(size_t(k), e); }
        else if (n == "res_self") { if (!sz) return false; long k = op.arg(1); r.num("n", k); long i = self(1); ret = a.resize(size_t(k), a[i]); }
        else if (n == "reserve") { long k = op.arg(1); r.num("n", k); ret = a.reserve(size_t(k)); }
        else if (n == "shrink") ret = a.shrink_to_fit();
        else if (n == "swap") { if (op.arg(1) % 2) b.swap(a); else a.swap(b); }
        else if (n == "set") { if (!sz) return false; long i = self(0); E e = mk<E>(); r.raw("v", js(units(e))); if (i % 2) a[i] = e; else a.at(i) = e; }
        else if (n == "eq") { bool e1 = a == b, e2 = b == a, e3 = a != b; ret = e1 == e2 && e1 != e3 ? e1 : 7; }
        else if (n == "obs") {
            const V& ca = a;
            r.raw("fw", jl(a.begin(), a.end())).raw("cfw", jl(ca.begin(), ca.end())).raw("ccfw", jl(a.cbegin(), a.cend()));
            r.raw("rv", jl(a.rbegin(), a.rend())).raw("crv", jl(ca.rbegin(), ca.rend())).raw("ccrv", jl(a.crbegin(), a.crend()));
            std::vector<E> ix, cix, xt, cxt, dt, cdt, fb;
            for (long i = 0; i < sz; ++i) { ix.push_back(a[i]); cix.push_back(ca[i]); xt.push_back(a.at(i)); cxt.push_back(ca.at(i)); dt.push_back(a.data()[i]); cdt.push_back(ca.data()[i]); }
            if (sz) fb = {a.front(), ca.front(), a.back(), ca.back()};
            r.raw("ix", jl(ix)).raw("cix", jl(cix)).raw("at", jl(xt)).raw("cat", jl(cxt)).raw("dt", jl(dt)).raw("cdt", jl(cdt)).raw("fb", jl(fb)).b("em", a.empty()).num("sz", (long)ca.size());
        }
        else return false;
        r.num("r", ret);
        return true;
    }
};
template <class T, class U, class A> void go(const Script& s) { static Run<T, U, A> r; r.run(s); }
using R16 = PA<16, false, 4096, true>; using R16w = PA<16, false, 0, false>; using R8 = PA<8, false, 40, true>;
using N16 = PA<16, false, 40, true, uint8_t>; using M16 = PA<16, true, 0, false, uint8_t>; using N8 = PA<8, false, 0, true, uint8_t>; // sizes of one byte
using E16 = PA<16, true, 0, true>; using E8 = PA<8, true, 0, false>;
#define PV(T, U, A) static Reg r_##T##_##U##_##A("pod_" #T "_" #U "_" #A, go<T, U, A>);
#if PART == 0
PV(u8, u32, N16) PV(u8, u32, M16) PV(x16, x48, N8)
PV(u8, u32, R16) PV(u8, u32, E16) PV(u8, u32, R8)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
PV(u16, s6, R16w) PV(u16, s6, E8) PV(u32, s12, R16)
#elif PART == 2
PV(s12, s24, R8) PV(s12, s24, E16)
using D = itlib::impl::pod_allocator;
#elif PART == 3
PV(w32, w96, R16) PV(w32, w96, E16) PV(w64, w128, R8) PV(a128, a256, R8)
#elif PART == 4
PV(w64, w128, E8) PV(x16, x48, R8) PV(x16, x48, E8) PV(u32, s12, R16w)
#endif
