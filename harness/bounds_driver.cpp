// C28: misuse is reported as configured. The configuration is this program's: SV_EH, SM_EH (0..3, undefined: default), NB (bit mask of
// headers with bounds checks disabled), NT (flat_map asserts), NDEBUG. Each call is first tried on a copy, from which an assertion's
// SIGABRT is left by a jump; only if it ended otherwise is it made on the object itself.
#ifdef SV_EH
#define ITLIB_STATIC_VECTOR_ERROR_HANDLING SV_EH
#endif
#ifdef SM_EH
#define ITLIB_SMALL_VECTOR_ERROR_HANDLING SM_EH
#endif
#ifndef NB
#define NB 0
#endif
#if NB & 1
#define ITLIB_STATIC_VECTOR_NO_DEBUG_BOUNDS_CHECK
#endif
#if NB & 2
#define ITLIB_SMALL_VECTOR_NO_DEBUG_BOUNDS_CHECK
#endif
#if NB & 4
#define ITLIB_SPAN_NO_DEBUG_BOUNDS_CHECK
#endif
#if NB & 8
#define ITLIB_STRIDE_SPAN_NO_DEBUG_BOUNDS_CHECK
#endif
#if NB & 16
#define ITLIB_POLY_SPAN_NO_DEBUG_BOUNDS_CHECK
#endif
#if NB & 32
#define ITLIB_MEMORY_VIEW_NO_DEBUG_BOUNDS_CHECK
#endif
#ifdef NT
#define ITLIB_FLAT_MAP_NO_THROW
#endif
#include <itlib/static_vector.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/memory_view.hpp>
#include <itlib/flat_map.hpp>
#include <csetjmp>
#include "vh.hpp"
using namespace vh;

static sigjmp_buf back;
static void on_abort(int) { siglongjmp(back, 1); }
static int live = 0;
struct T { // an element which counts
    int v;
    T() : v(0) { ++live; }
    T(int x) : v(x) { ++live; }
    T(const T& o) : v(o.v) { ++live; }
    T(T&& o) noexcept : v(o.v) { o.v = MOVED; ++live; }
    T& operator=(const T& o) { v = o.v; return *this; }
    T& operator=(T&& o) noexcept { int t = o.v; o.v = MOVED; v = t; return *this; }
    ~T() { v = -99; --live; }
};

constexpr int CAP = 3, MAXN = 16;
static const bool nd =
#ifdef NDEBUG
    true;
#else
    false;
#endif

// runs f; "abort" if an assertion fired
template <class F> std::string attempt(F&& f) {
    int before = live;
    struct sigaction sa, old;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_abort;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &sa, &old);
    std::string r;
    if (sigsetjmp(back, 1)) r = "abort";
    else r = guarded(f);
    sigaction(SIGABRT, &old, nullptr);
    live = before;
    return r.empty() ? "ok" : r;
}

static size_t sz(long n) { return n < 0 ? ~size_t(0) : size_t(n); }
struct Vals { // the values v, v+1...
    T* p; size_t n;
    Vals(size_t k, int v) : p(new T[k ? k : 1]), n(k) { for (size_t i = 0; i < k; ++i) p[i].v = v + int(i); }
    ~Vals() { delete[] p; }
    const T* b() const { return p; }
    const T* e() const { return p + n; }
};
template <class F> void il(size_t n, int v, F&& f) {
    switch (n) {
    case 0: f(std::initializer_list<T>{}); break;
    case 1: f({T(v)}); break;
    case 2: f({T(v), T(v + 1)}); break;
    case 3: f({T(v), T(v + 1), T(v + 2)}); break;
    case 4: f({T(v), T(v + 1), T(v + 2), T(v + 3)}); break;
    case 5: f({T(v), T(v + 1), T(v + 2), T(v + 3), T(v + 4)}); break;
    default: f({T(v), T(v + 1), T(v + 2), T(v + 3), T(v + 4), T(v + 5)}); break;
    }
}

template <class V> struct Other { using type = itlib::static_vector<T, 7>; };
using SV = itlib::static_vector<T, CAP>;
using SM = itlib::small_vector<T, 8>;

// element access; the address only, unless it is within
template <class V> long access(V& v, const Op& op, size_t n) {
    auto k = op.arg(0); size_t i = sz(op.arg(1));
    const V& cv = v;
    const T* p;
    if (op.name == "set") {
        T& r = k ? v[i] : v.at(i);
        if (i < n) r.v = int(op.arg(3));
        return -1;
    }
    if (op.name == "front") p = k ? &cv.front() : &v.front();
    else if (op.name == "back") p = k ? &cv.back() : &v.back();
    else p = k == 0 ? &v.at(i) : k == 1 ? &v[i] : k == 2 ? &cv.at(i) : &cv[i];
    return op.name != "get" || i < n ? p->v : -2;
}

// one call on a vector (or the making of a new one in its place); returns the result
inline void remake(SV& v, const Op& op, int x, size_t n) {
    switch (op.arg(0)) {
    case 0: { SV t(n); v = std::move(t); break; }
    case 1: { SV t(n, T(x)); v = std::move(t); break; }
    case 2: { Vals s(n, x); SV t(s.b(), s.e()); v = std::move(t); break; }
    case 3: il(n, x, [&](std::initializer_list<T> l) { SV t(l); v = std::move(t); }); break;
    default: { Vals s(n, x); itlib::static_vector<T, 7> o(s.b(), s.e()); SV t(o); v = std::move(t); }
    }
}
inline void remake(SM& v, const Op& op, int x, size_t n) {
    switch (op.arg(0)) {
    case 0: { SM t(n); v = std::move(t); break; }
    case 1: { SM t(n, T(x)); v = std::move(t); break; }
    case 2: { Vals s(n, x); SM t(s.b(), s.e()); v = std::move(t); break; }
    case 3: il(n, x, [&](std::initializer_list<T> l) { SM t(l); v = std::move(t); }); break;
    default: { Vals s(n, x); SM o(s.b(), s.e()); SM t(o); v = std::move(t); }
    }
}
template <class V> long call(V& v, const Op& op) {
    const auto& o = op.name;
    auto k = op.arg(0), p = op.arg(1);
    size_t n = sz(op.arg(2));
    int x = int(op.arg(3));
    auto at = [&] { return v.begin() + p; };
    if (o == "get" || o == "set" || o == "front" || o == "back") return access(v, op, v.size());
    if (o == "make") { remake(v, op, x, n); return -1; }
    if (o == "assign") {
        switch (k) {
        case 1: { T t(x); v.assign(n, t); break; }
        case 2: { Vals s(n, x); v.assign(s.b(), s.e()); break; }
        case 3: il(n, x, [&](std::initializer_list<T> l) { v.assign(l); }); break;
        default: il(n, x, [&](std::initializer_list<T> l) { v = l; }); break;
        }
        return -1;
    }
    if (o == "grow") {
        if (k == 0) { T t(x); v.push_back(t); }
        else if (k == 1) v.push_back(T(x));
        else v.emplace_back(x);
        return -1;
    }
    if (o == "ins") {
        typename V::iterator r = v.begin();
        switch (k) {
        case 0: { T t(x); r = v.insert(at(), t); break; }
        case 1: r = v.insert(at(), T(x)); break;
        case 2: r = v.emplace(at(), x); break;
        case 3: { T t(x); r = v.insert(at(), n, t); break; }
        case 4: { Vals s(n, x); r = v.insert(at(), s.b(), s.e()); break; }
        default: il(n, x, [&](std::initializer_list<T> l) { r = v.insert(at(), l); });
        }
        return r - v.begin();
    }
    if (o == "resize") { if (k == 0) v.resize(n); else v.resize(n, T(x)); return -1; }
    if (o == "era") return v.erase(at()) - v.begin();
    if (o == "erar") return v.erase(at(), v.begin() + long(n)) - v.begin();
    if (o == "pop") { v.pop_back(); return -1; }
    if (o == "clear") { v.clear(); return -1; }
    _exit(3);
}

static Rec conf(const char* kind, int eh, int bit) {
    bool nt = false;
#ifdef NT
    nt = true;
#endif
    Rec c;
    c.str("kind", kind).num("cap", CAP).num("eh", eh).b("nd", nd).b("nb", (NB & bit) != 0).b("nt", nt && !strcmp(kind, "map"));
    return c;
}
static Rec event(const Op& op, const std::string& out, long r) {
    Rec e;
    e.str("op", op.name).num("k", op.arg(0)).num("p", op.arg(1)).num("n", op.arg(2)).num("v", op.arg(3)).str("out", out).num("r", out == "ok" ? r : -1);
    return e;
}

template <class V> void vec(const Script& s, const char* kind, int eh, int bit) {
    Trace tr(s.id, conf(kind, eh, bit));
    live = 0;
    std::unique_ptr<V> v(new V);
    for (auto& op : s.ops) {
        long r = -1;
        auto out = attempt([&] { std::unique_ptr<V> c(new V(*v)); call(*c, op); });
        if (out != "abort") {
            out = guarded([&] { r = call(*v, op); });
            if (out.empty()) out = "ok";
        }
        std::vector<int> q;
        for (auto& x : *v) { q.push_back(x.v); if (q.size() > MAXN) break; }
        tr.ev(event(op, out, r).arr("s", q).num("z", (long long)v->size()).num("live", live));
    }
}

// views of the first n of an array
static std::unique_ptr<T[]> arr;
static T& same(T& t) { return t; }
template <class W> void view(const Script& s, const char* kind, int bit, W (*mk)(size_t)) {
    Trace tr(s.id, conf(kind, 1, bit));
    arr.reset(new T[MAXN]);
    size_t n = 0;
    for (auto& op : s.ops) {
        long r = -1;
        std::string out;
        if (op.name == "make") {
            n = size_t(op.arg(2));
            for (size_t i = 0; i < n; ++i) arr[i].v = int(op.arg(3)) + int(i);
            out = "ok";
        } else {
            W w = mk(n);
            auto go = [&] {
                auto k = op.arg(0); size_t i = sz(op.arg(1));
                if (op.name == "set") { T& x = const_cast<T&>(k ? w[i] : w.at(i)); if (i < n) x.v = int(op.arg(3)); return -1l; }
                const W& cw = w;
                const T* p;
                if (op.name == "front") p = k ? &cw.front() : &w.front();
                else if (op.name == "back") p = k ? &cw.back() : &w.back();
                else p = k == 0 ? &w.at(i) : k == 1 ? &w[i] : k == 2 ? &cw.at(i) : &cw[i];
                return op.name != "get" || i < n ? long(p->v) : -2l;
            };
            int was[MAXN];
            for (int i = 0; i < MAXN; ++i) was[i] = arr[i].v;
            out = attempt([&] { go(); });
            for (int i = 0; i < MAXN; ++i) arr[i].v = was[i];
            if (out != "abort") { out = guarded([&] { r = go(); }); if (out.empty()) out = "ok"; }
        }
        W w = mk(n);
        std::vector<int> q;
        for (size_t i = 0; i < n; ++i) q.push_back(arr[i].v);
        tr.ev(event(op, out, r).arr("s", q).num("z", (long long)w.size()));
    }
}

static void map_(const Script& s) {
    Trace tr(s.id, conf("map", 1, 64));
    itlib::flat_map<int, T> m;
    for (auto& op : s.ops) {
        long r = -1;
        int k = int(op.arg(1)) * 2;
        auto go = [&](itlib::flat_map<int, T>& x) {
            const auto& cx = x;
            if (op.name == "put") x[k].v = int(op.arg(3));
            else if (op.name == "del") x.erase(k);
            else if (op.name == "set") x.at(k).v = int(op.arg(3));
            else return long(op.arg(0) ? cx.at(k).v : x.at(k).v);
            return -1l;
        };
        auto out = attempt([&] { auto c = m; go(c); });
        if (out != "abort") { out = guarded([&] { r = go(m); }); if (out.empty()) out = "ok"; }
        std::vector<int> q;
        for (int i = 0; i < CAP; ++i) { auto f = m.find(i * 2); q.push_back(f == m.end() ? -1 : f->second.v); }
        tr.ev(event(op, out, r).arr("s", q).num("z", (long long)m.size()));
    }
}

#ifndef SV_EH
#define SV_EH 1
#endif
#ifndef SM_EH
#define SM_EH 1
#endif
static Reg r1("sv", [](const Script& s) { vec<SV>(s, "sv", SV_EH, 1); });
static Reg r2("sm", [](const Script& s) { vec<SM>(s, "sm", SM_EH, 2); });
static Reg r3("span", [](const Script& s) { view<itlib::span<T>>(s, "span", 4, [](size_t n) { return itlib::span<T>(arr.get(), n); }); });
static Reg r4("stride", [](const Script& s) { view<itlib::stride_span<T>>(s, "stride", 8, [](size_t n) { return itlib::stride_span<T>(reinterpret_cast<unsigned char*>(arr.get()), sizeof(T), n); }); });
static Reg r5("poly", [](const Script& s) { view<itlib::poly_span<T&>>(s, "poly", 16, [](size_t n) { return itlib::poly_span<T&>(arr.get(), n, same); }); });
static Reg r6("mv", [](const Script& s) { view<itlib::memory_view<T>>(s, "mv", 32, [](size_t n) { return itlib::memory_view<T>(arr.get(), n); }); });
static Reg r7("cmv", [](const Script& s) { view<itlib::const_memory_view<T>>(s, "cmv", 32, [](size_t n) { return itlib::const_memory_view<T>(arr.get(), n); }); });
static Reg r8("map", map_);
int main(int argc, char** argv) { fclose(stderr); return drive(argc, argv); }
