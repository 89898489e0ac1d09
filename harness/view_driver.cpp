// Driver for span, stride_span, poly_span and memory_view. All memory lies in one arena of bytes; elements are groups of Z bytes.
#include "vh.hpp"
#include <cstddef>
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
using namespace vh;

static const int MEM = 60;
inline uint8_t M[MEM + 64];          // the arena and a guard zone behind it
static long off_of(const void* p) { return p ? long(reinterpret_cast<const uint8_t*>(p) - M) : -1; }
static size_t big(long x) { // negative codes for sizes beyond any view
    static const size_t t[] = {~size_t(0), ~size_t(0) - 1, ~size_t(0) / 2, ~size_t(0) / 2 + 1, ~size_t(0) / 3 + 1, ~size_t(0) / 4 + 1, ~size_t(0) - 5, (size_t(1) << 63) + 2};
    return x >= 0 ? size_t(x) : t[(-x - 1) & 7];
}
template <int Z> struct E { uint8_t b[Z]; };
template <int Z> struct Base1 { E<Z> x; };
template <int Z> struct Base2 { E<Z> y; };
template <int Z> struct Der : Base1<Z>, Base2<Z> { uint8_t extra[2]; E<Z> f; };
template <class T> struct Cont { T* p; size_t n; T* data() { return p; } const T* data() const { return p; } size_t size() const { return n; } using value_type = T; };
template <int Z> static long tok(const E<Z>& e) { return off_of(&e); }
static long tok(const uint8_t& e) { return off_of(&e); }
static long tok(int v) { return v; }
template <int Z> static void put_val(E<Z>& e, long v) { for (int k = 0; k < Z; ++k) e.b[k] = uint8_t(v + k); }
static void put_val(uint8_t& e, long v) { e = uint8_t(v); }
static void put_val(int, long) {}
static void put_val(...) {}
template <int Z> static uint8_t& pick(E<Z>& e) { return e.b[0] % 2 ? e.b[1] : e.b[2]; }
template <int Z> static int value(E<Z>& e) { return 1000 + e.b[1]; }

struct Probe { // everything a view shows
    std::vector<long> fw, rv, ix, cf, cr; long size = 0, fr = -1, bk = -1, nb = -1, st = -1, data = -1, rf = 0; bool empty = false, yes = false;
};
struct Path { int it; int n; int r; };

template <class It> static It reach(It b, It e, long n, long i, int path) {
    switch (path % 8) {
    case 0: return b + i;
    case 1: return e - (n - i);
    case 2: { It x = b; for (long k = 0; k < i; ++k) ++x; return x; }
    case 3: { It x = e; for (long k = n; k > i; --k) --x; return x; }
    case 4: { It x = b; x += i; return x; }
    case 5: { It x = e; x -= n - i; return x; }
    case 6: { It x = b + n; x += i - n; return x; }
    default: { It x = b; x -= -i; return x; }
    }
}
template <class V, class It> static void relate(Rec& r, const char* nm, It b, It e, long n, long i, long j, long k, int pa, int pb) {
    It x = reach(b, e, n, i, pa), y = reach(b, e, n, j, pb), z = x + (k - i), w = x - (i - k);
    long d = long(y - x);
    std::string q = "[" + std::to_string(d);
    for (bool o : {x == y, x != y, x < y, x > y, x <= y, x >= y}) q += o ? ",1" : ",0";
    q += "," + std::to_string(long(z - b)) + "," + std::to_string(long(e - w)) + "," + std::to_string(i < n ? tok(*x) : -1) + "," + std::to_string(k < n ? tok(*z) : -1) + "," + std::to_string(long(x - y)) + "]";
    r.raw(nm, q);
}
// crbegin and crend, where there are any, walk as rbegin and rend of the constant view do
template <class V> static auto crev(V& v, Probe& p, int) -> decltype(v.crbegin(), void()) {
    size_t k = 0; auto i = v.crbegin(), e = v.crend(); if (e - i != p.size) { p.cr.push_back(-9); return; }
    for (; i != e; ++i, ++k) if (k >= p.cr.size() || tok(*i) != p.cr[k]) { p.cr.push_back(-9); return; }
}
template <class V> static void crev(V&, Probe&, long) {}
template <class V> static void probe(V& v, Probe& p) {
    using CV = const V; CV& c = v;
    p.size = long(v.size()); p.empty = v.empty(); p.yes = bool(v);
    if (p.size > 100) return;
    for (auto i = v.begin(); i != v.end(); ++i) p.fw.push_back(tok(*i));
    for (auto&& x : v) { (void)x; ++p.rf; }
    for (auto i = v.rbegin(); i != v.rend(); ++i) p.rv.push_back(tok(*i));
    for (long i = 0; i < p.size; ++i) { long a = tok(v[size_t(i)]), b = tok(v.at(size_t(i))), d = tok(c[size_t(i)]), f = tok(c.at(size_t(i))); p.ix.push_back(a == b && b == d && d == f ? a : -9); }
    for (auto i = c.begin(); i != c.end(); ++i) p.cf.push_back(tok(*i));
    { auto i = c.cbegin(); size_t k = 0; for (; i != c.cend(); ++i, ++k) if (k >= p.cf.size() || tok(*i) != p.cf[k]) p.cf.push_back(-9); }
    for (auto i = c.rbegin(); i != c.rend(); ++i) p.cr.push_back(tok(*i));
    crev(v, p, 0); crev(c, p, 0);
    if (p.size) { p.fr = tok(v.front()); p.bk = tok(v.back()); if (tok(c.front()) != p.fr || tok(c.back()) != p.bk) p.fr = -9; }
    p.data = off_of(c.data()); if (off_of(v.data()) != p.data) p.data = -9;
}

template <int Z> struct Types {
    using T = E<Z>;
    static T* at(long o) { return reinterpret_cast<T*>(M + o); }
    // ------------------------------------------------ span
    struct Span {
        using MV = itlib::span<T>; using CV = itlib::span<const T>;
        template <class V, class P> static V make(long how, long o, long, long n) {
            P p = at(o);
            if (how == 10) { itlib::span d(p, p + n); return d; }               // the type deduced
            if (how == 11) { itlib::span d(p, size_t(n)); return d; }
            if (how == 12) { Cont<typename std::remove_pointer<P>::type> c{p, size_t(n)}; itlib::span d(c); return d; }
            switch (how % 6) {
            case 0: return V(p, size_t(n));
            case 1: return V(p, p + n);
            case 2: { Cont<typename std::remove_pointer<P>::type> c{p, size_t(n)}; return V(c); }
            case 3: { const Cont<typename std::remove_pointer<P>::type> c{p, size_t(n)}; (void)c; return V(p, size_t(n)); }
            case 4: return itlib::make_span(p, size_t(n));
            default: return itlib::make_span(p, p + n);
            }
        }
        static MV mk(long how, long o, long st, long n) {
            if (how == 6) return MV(*reinterpret_cast<T(*)[4]>(at(o)));
            if (how == 7) return itlib::make_span(*reinterpret_cast<T(*)[4]>(at(o)));
            if (how == 8) { Cont<T> c{at(o), size_t(n)}; return itlib::make_span(c); }
            if (how == 9) { MV v; return v; }
            return make<MV, T*>(how, o, st, n);
        }
        static CV mkc(long how, long o, long st, long n) {
            if (how == 6) return CV(*reinterpret_cast<const T(*)[4]>(at(o)));
            if (how == 7) return itlib::make_span(*reinterpret_cast<const T(*)[4]>(at(o)));
            if (how == 8) { const Cont<T> c{at(o), size_t(n)}; return itlib::make_span(c); }
            if (how == 9) return CV();
            if (how == 3) { const Cont<T> c{at(o), size_t(n)}; return CV(c); }
            return make<CV, const T*>(how, o, st, n);
        }
        template <class V> static V sub(const V& v, size_t a, size_t b, bool dflt) { return dflt ? v.subspan(a) : v.subspan(a, b); }
        template <class V> static void extra(V& v, Rec& r, Probe& p) {
            p.nb = long(v.size_bytes()); auto by = v.as_bytes(); auto wb = v.as_writable_bytes();
            std::string q = "["; for (auto& x : by) q += (q.size() > 1 ? "," : "") + std::to_string(off_of(&x)); r.raw("bytes", q + "]");
            q = "["; for (auto& x : wb) q += (q.size() > 1 ? "," : "") + std::to_string(off_of(&x)); r.raw("wbytes", q + "]");
        }
        static void wbyte(MV& v, size_t i, long x) { v.as_writable_bytes()[i] = uint8_t(x); }
    };
    // ------------------------------------------------ memory_view
    struct Mem {
        using MV = itlib::memory_view<T>; using CV = itlib::const_memory_view<T>;
        static MV mk(long how, long o, long, long n) {
            if (how == 9) return MV();
            if (how == 4) { Cont<T> c{at(o), size_t(n)}; return itlib::make_memory_view(c); }
            if (how == 5) { MV v(at(o), size_t(n)); v.reset(); return v; }       // to nothing
            if (how == 7) { MV v(at(o), size_t(n)); v.reset(at(o)); return v; }  // to no elements of something
            switch (how % 4) {
            case 0: return MV(at(o), size_t(n));
            case 1: return itlib::make_memory_view(at(o), size_t(n));
            case 2: { Cont<T> c{at(o) - 1, size_t(n) + 1}; return itlib::make_memory_view(c, 1); }
            default: { MV v; v.reset(at(o), size_t(n)); return v; }
            }
        }
        static CV mkc(long how, long o, long, long n) {
            if (how == 9) return CV();
            if (how == 6) return itlib::make_memory_view(*reinterpret_cast<const T(*)[4]>(at(o)));
            const T* p = at(o);
            if (how == 5) { CV v(p, size_t(n)); v.reset(); return v; }
            if (how == 7) { CV v(p, size_t(n)); v.reset(p); return v; }
            switch (how % 5) {
            case 0: return CV(p, size_t(n));
            case 1: return itlib::make_memory_view(p, size_t(n));
            case 2: { const Cont<T> c{at(o) - 1, size_t(n) + 1}; return itlib::make_memory_view(c, 1); }
            case 3: { const Cont<T> c{at(o), size_t(n)}; return itlib::make_memory_view(c); }
            default: { CV v(p, 1); v.reset(); v.reset(p, size_t(n)); return v; }
            }
        }
        template <class V> static V sub(const V& v, size_t a, size_t b, bool dflt) { return dflt ? v.slice(a) : v.slice(a, b); }
        template <class V> static void extra(V& v, Rec& r, Probe& p) { if (off_of(v.get()) != p.data) p.data = -9; }
    };
    // ------------------------------------------------ stride_span
    struct Stride {
        using MV = itlib::stride_span<T>; using CV = itlib::stride_span<const T>;
        static MV mk(long how, long o, long st, long n) {
            switch (how) {
            case 0: return MV(M + o, size_t(st), size_t(n));
            case 1: return itlib::make_stride_span_from_buf<T>(M, size_t(o), size_t(st), size_t(n));
            case 2: return itlib::make_stride_span_from_buf(at(o), size_t(st), size_t(n));
            case 3: return itlib::make_stride_span_from_array(at(o), size_t(n), size_t(st % 3), size_t(1 + st % 4));  // n is the array's length here
            case 4: return itlib::make_stride_span_member_view(reinterpret_cast<Der<Z>*>(M + o), size_t(n), &Der<Z>::f);
            case 5: { auto v = itlib::make_stride_span_base_view<Base2<Z>>(reinterpret_cast<Der<Z>*>(M + o), size_t(n)); return MV(v.data(), v.stride(), v.size()); }
            case 6: return itlib::make_stride_span_from_array(at(o), size_t(n));
            case 7: return itlib::make_stride_span_from_array(at(o), size_t(n), size_t(st % 3));
            default: return MV();
            }
        }
        static CV mkc(long how, long o, long st, long n) {
            const T* p = at(o);
            switch (how) {
            case 0: return CV(M + o, size_t(st), size_t(n));
            case 1: return itlib::make_stride_span_from_buf<const T>(static_cast<const uint8_t*>(M), size_t(o), size_t(st), size_t(n));
            case 2: return itlib::make_stride_span_from_buf(p, size_t(st), size_t(n));
            case 3: return itlib::make_stride_span_from_array(p, size_t(n), size_t(st % 3), size_t(1 + st % 4));
            case 4: return itlib::make_stride_span_member_view(reinterpret_cast<const Der<Z>*>(M + o), size_t(n), &Der<Z>::f);
            case 5: { auto v = itlib::make_stride_span_base_view<const Base2<Z>>(reinterpret_cast<const Der<Z>*>(M + o), size_t(n)); return CV(v.data(), v.stride(), v.size()); }
            case 6: return itlib::make_stride_span_from_array(p, size_t(n));
            case 7: return itlib::make_stride_span_from_array(p, size_t(n), size_t(st % 3));
            default: return CV();
            }
        }
        template <class V> static V sub(const V& v, size_t a, size_t b, bool dflt) { return dflt ? v.subspan(a) : v.subspan(a, b); }
        template <class V> static void extra(V& v, Rec&, Probe& p) { p.st = long(v.stride()); }
    };
    // ------------------------------------------------ poly_span
    template <class RT> struct Poly {
        using MV = itlib::poly_span<RT>; using CV = itlib::poly_span<RT>;
        static uint8_t& f(T& e, uint8_t*) { return pick(e); }
        static int f(T& e, int*) { return value(e); }
        static MV mk(long how, long o, long, long n) {
            if (how == 9) return MV();
            using D = typename std::remove_reference<RT>::type*;
            if (how % 2) return MV(at(o), size_t(n), [](T& e) -> RT { return f(e, D()); });
            RT (*fp)(T&) = [](T& e) -> RT { return f(e, D()); };
            return MV(at(o), size_t(n), fp);
        }
        static CV mkc(long how, long o, long st, long n) { return mk(how, o, st, n); }
        template <class V> static V sub(const V& v, size_t a, size_t b, bool dflt) { return dflt ? v.subspan(a) : v.subspan(a, b); }
        template <class V> static void extra(V& v, Rec&, Probe& p) { p.st = long(v.stride()); }
    };
};

template <int Z, class K> struct Run {
    using MV = typename K::MV; using CV = typename K::CV;
    static constexpr bool one = std::is_same<MV, CV>::value;
    static constexpr bool isspan = std::is_same<K, typename Types<Z>::Span>::value, ismem = std::is_same<K, typename Types<Z>::Mem>::value;
    MV m[2]; CV c[2];
    void run(const Script& s) {
        for (int i = 0; i < MEM + 64; ++i) M[i] = uint8_t(i * 7 + 3);
        Rec cfg; cfg.str("name", s.cfg).str("kind", isspan ? "span" : ismem ? "mem" : std::is_same<K, typename Types<Z>::Stride>::value ? "stride" : std::is_same<MV, itlib::poly_span<int>>::value ? "pval" : "pref").num("z", Z).num("mem", MEM).raw("init", bytes());
        Trace t(s.id, cfg);
        for (auto& op : s.ops) { Rec r; r.str("op", op.name); if (step(op, r)) t.ev(r); }
    }
    static std::string list(const std::vector<long>& v) { std::string q = "["; for (size_t i = 0; i < v.size(); ++i) q += (i ? "," : "") + std::to_string(v[i]); return q + "]"; }
    static std::string bytes() { std::string q = "["; for (int i = 0; i < MEM; ++i) q += (i ? "," : "") + std::to_string(M[i]); return q + "]"; }
    template <class V> static void show(V& v, Rec& r) {
        Probe p; probe(v, p); K::extra(v, r, p);
        r.num("size", p.size).b("empty", p.empty).b("yes", p.yes).num("fr", p.fr).num("bk", p.bk).num("nb", p.nb).num("st", p.st).num("data", p.data).num("rf", p.rf);
        r.raw("fw", list(p.fw)).raw("rv", list(p.rv)).raw("ix", list(p.ix)).raw("cf", list(p.cf)).raw("cr", list(p.cr));
        if (!isspan) r.raw("bytes", "[]").raw("wbytes", "[]");
    }
    template <class V> static V firsts(const V& v, size_t n) { if constexpr (ismem) return v.slice(0, n); else return v.first(n); }
    template <class V> static V lasts(const V& v, size_t n) { if constexpr (ismem) return v.slice(n > v.size() ? 0 : v.size() - n); else return v.last(n); }
    template <class V> static bool change(V& v, const V& from, const Op& op) { // v becomes a slice of from, or is cut itself
        const std::string& n = op.name; size_t a = big(op.arg(2)), b = big(op.arg(3)); 
        if (n == "sub") v = K::sub(from, a, b, op.arg(3) == -99);
        else if (n == "first") v = firsts(from, a);
        else if (n == "last") v = lasts(from, a);
        else if (n == "copy") { V w(from); v = w; }
        else if (n == "move") { V w(from); V x(std::move(w)); v = std::move(x); }
        else if (n == "self") { V& w = v; v = w; }
        else return false;
        return true;
    }
    template <class V> void iter(V& v, const Op& op, Rec& r) {
        long n = long(v.size()), i = op.arg(2) % (n + 1), j = op.arg(3) % (n + 1), k = op.arg(4) % (n + 1); int pa = int(op.arg(5)), pb = int(op.arg(6)); const V& cv = v;
        r.num("i", i).num("j", j).num("k", k);
        relate<V>(r, "q1", v.begin(), v.end(), n, i, j, k, pa, pb);
        relate<V>(r, "q2", cv.begin(), cv.end(), n, i, j, k, pa, pb);
        relate<V>(r, "q3", v.rbegin(), v.rend(), n, i, j, k, pa, pb);
        relate<V>(r, "q4", cv.rbegin(), cv.rend(), n, i, j, k, pa, pb);
        if (i < n) {
            auto it = v.begin() + i; long arrow = -1; auto rt = v.rbegin() + i; (void)rt;
            if constexpr (!one) { arrow = off_of(&it->b); if constexpr (std::is_same<K, typename Types<Z>::Stride>::value) { if (off_of(it.ptr()) != arrow) arrow = -9; } }
            r.num("arrow", arrow);
        } else r.num("arrow", -1);
    }
    bool step(const Op& op, Rec& r) {
        const std::string& n = op.name; long d = op.arg(0) & 3, s = op.arg(1) & 3; 
        if (n == "set") { for (long k = 0; k < 6; ++k) M[size_t(op.arg(0) + 3 * k) % MEM] = uint8_t(op.arg(1) + k); } // memory changes behind the views
        std::string ex = guarded([&] {
            if (n == "set") {}
            else if (n == "mk") { long how = op.arg(2); if (d < 2) m[d] = K::mk(how, op.arg(3), op.arg(4), op.arg(5)); else c[d - 2] = K::mkc(how, op.arg(3), op.arg(4), op.arg(5)); }
            else if (n == "conv") { if (d < 2) d = 2 + d; if (s >= 2) s -= 2; if (op.arg(2)) c[d - 2] = m[s]; else { CV x(m[s]); c[d - 2] = x; } }
            else if (n == "rmpre" || n == "rmsuf") {
                auto cut = [&](auto& v) { size_t k = size_t(op.arg(2)) % (v.size() + 1); r.num("k", long(k)); if (n == "rmpre") v.remove_prefix(k); else v.remove_suffix(k); };
                if (d < 2) cut(m[d]); else cut(c[d - 2]);
            }
            else if (n == "resize") { if constexpr (ismem) { auto cut = [&](auto& v) { size_t k = size_t(op.arg(2)) % (v.size() + 1); r.num("k", long(k)); v.reset(k); }; if (d < 2) cut(m[d]); else cut(c[d - 2]); } else r.num("k", -1); }
            else if (n == "write") {
                if (d >= 2) d -= 2;
                MV& v = m[d]; long z = long(v.size()); long i = z ? op.arg(2) % z : -1; r.num("i", i);
                if (i >= 0) {
                    long x = op.arg(4); 
                    switch (op.arg(3) % 8) {
                    case 0: put_val(v[size_t(i)], x); break;
                    case 1: put_val(v.at(size_t(i)), x); break;
                    case 2: put_val(*(v.begin() + i), x); break;
                    case 3: put_val(*(v.end() - (z - i)), x); break;
                    case 4: put_val(*(v.rbegin() + (z - 1 - i)), x); break;
                    case 5: { auto it = v.begin(); for (long k = 0; k < i; ++k) ++it; put_val(*it, x); break; }
                    case 6: if (i == 0) put_val(v.front(), x); else if (i == z - 1) put_val(v.back(), x); else put_val(*(v.rbegin() + (z - 1 - i)), x); break;
                    default: { long k = 0; for (auto&& e : v) if (k++ == i) put_val(e, x); }
                    }
                }
            }
            else if (n == "wbyte") { d &= 1; long z = long(m[d].size()) * Z, i = z && isspan ? op.arg(2) % z : -1; r.num("i", i); if constexpr (isspan) { if (i >= 0) K::wbyte(m[d], size_t(i), op.arg(3)); } }
            else if (n == "iter") { if (d < 2) iter(m[d], op, r); else iter(c[d - 2], op, r); }
            else { // slices
                if (d < 2) { s &= 1; change(m[d], m[s], op); } else { s = 2 + (s & 1); change(c[d - 2], c[s - 2], op); }
            }
        });
        r.num("d", d).num("s", s).num("p0", op.arg(0)).num("p1", op.arg(1)).num("a", op.arg(2)).num("b", op.arg(3)).num("o", op.arg(3)).num("sd", op.arg(4)).num("n", op.arg(5)).num("v", op.arg(4)).str("ex", ex);
        if (n == "wbyte") r.num("x", op.arg(3) & 255); else r.num("x", op.arg(4) & 255);
        r.raw("mem", bytes());
        bool guard = true; for (int k = MEM; k < MEM + 64; ++k) if (M[k] != uint8_t(k * 7 + 3)) guard = false;
        r.b("guard", guard);
        if (d < 2) show(m[d], r); else show(c[d - 2], r);
        std::string all = "[";
        for (int k = 0; k < 4; ++k) { Probe p; if (k < 2) probe(m[k], p); else probe(c[k - 2], p); all += (k ? "," : "") + list(p.fw); }
        r.raw("all", all + "]");
        return true;
    }
};
template <int Z, class K> void go(const Script& s) { Run<Z, K> r; r.run(s); }
#define R(N, Z, K) static Reg r_##N(#N, go<Z, Types<Z>::K>);
#if PART == 0
R(span1, 1, Span) R(span3, 3, Span)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
R(span4, 4, Span) R(mem3, 3, Mem)
#elif PART == 2
R(stride1, 1, Stride) R(stride3, 3, Stride) R(mem4, 4, Mem)
#elif PART == 3
R(pref3, 3, Poly<uint8_t&>) R(pval4, 4, Poly<int>)
#endif
