// Driver for flat_map and flat_set over several containers, key types and (stateful) orderings.
#include "vh.hpp"
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <deque>
#include <vector>
using namespace vh;

struct Grp { int g; };                    // equivalent to all keys of a group of ten
struct Het { int k; };                    // another type equivalent to one key
struct KStr { std::string s; KStr() = default; explicit KStr(int k) { char b[64]; snprintf(b, 64, "key%05d with a tail to leave the small buffer", k); s = b; }
    bool operator==(const KStr& o) const { return s == o.s; } bool operator<(const KStr& o) const { return s < o.s; } };
struct KMo { std::unique_ptr<int> p; KMo() = default; explicit KMo(int k) : p(new int(k)) {} KMo(KMo&&) = default; KMo& operator=(KMo&&) = default; // a key that cannot be copied
    bool operator==(const KMo& o) const { return *p == *o.p; } bool operator<(const KMo& o) const { return *p < *o.p; } };
inline int kv(const KMo& k) { return k.p ? *k.p : -9; }
inline int kv(int k) { return k; }
inline int kv(const Het& h) { return h.k; }
inline int kv(const KStr& s) { return s.s.size() < 8 ? -9 : atoi(s.s.c_str() + 3); }
inline long kv(const long& k) { return k; }
template <class T> struct MkKey; template <> struct MkKey<int> { static int mk(int k) { return k; } }; template <> struct MkKey<KMo> { static KMo mk(int k) { return KMo(k); } }; template <> struct MkKey<KStr> { static KStr mk(int k) { return KStr(k); } };
inline int fdiv(int k) { return k / 10; }
struct Ord { // 0 ascending, 1 descending, 2 ascending by tens (equivalent but distinct keys)
    int kind = 0;
    static int rank(int kind, int k) { return kind == 0 ? k : kind == 1 ? -k : fdiv(k); }
    static int grank(int kind, int k) { return kind == 1 ? -fdiv(k) : fdiv(k); }
    template <class A, class B> bool operator()(const A& a, const B& b) const { return rank(kind, kv(a)) < rank(kind, kv(b)); }
    template <class A> bool operator()(const A& a, const Grp& g) const { return grank(kind, kv(a)) < (kind == 1 ? -g.g : g.g); }
    template <class A> bool operator()(const Grp& g, const A& a) const { return (kind == 1 ? -g.g : g.g) < grank(kind, kv(a)); }
};
inline bool operator<(int a, const Het& h) { return a < h.k; }
inline bool operator<(const Het& h, int a) { return h.k < a; }
inline bool operator<(int a, const Grp& g) { return fdiv(a) < g.g; }
inline bool operator<(const Grp& g, int a) { return g.g < fdiv(a); }
inline bool operator<(const KMo& a, const Het& h) { return kv(a) < h.k; }
inline bool operator<(const Het& h, const KMo& a) { return h.k < kv(a); }
inline bool operator<(const KMo& a, const Grp& g) { return fdiv(kv(a)) < g.g; }
inline bool operator<(const Grp& g, const KMo& a) { return g.g < fdiv(kv(a)); }
inline bool operator<(const KStr& a, const Het& h) { return kv(a) < h.k; }
inline bool operator<(const Het& h, const KStr& a) { return h.k < kv(a); }
inline bool operator<(const KStr& a, const Grp& g) { return fdiv(kv(a)) < g.g; }
inline bool operator<(const Grp& g, const KStr& a) { return g.g < fdiv(kv(a)); }

template <class C, class = void> struct HasSwap : std::false_type {};
template <class C> struct HasSwap<C, decltype(std::declval<C&>().swap(std::declval<C&>()), void())> : std::true_type {};
template <class C, class = void> struct HasReserve : std::false_type {};
template <class C> struct HasReserve<C, decltype(std::declval<C&>().reserve(1), void())> : std::true_type {};

struct Unstable { int x; };
template <class M, bool Map, class Key, class Mapped, class Cmp, int Max> struct Run {
    using C = typename M::container_type; using E = typename M::value_type;
    static constexpr bool copy = Val<Mapped>::copy && std::is_copy_constructible<Key>::value, stateful = std::is_same<Cmp, Ord>::value;
    alignas(M) unsigned char store[2][sizeof(M)];
    M* m[2]; int counter = 0;
    int next() { return counter = counter % 900 + 1; }
    static Cmp cmp(int kind) { if constexpr (stateful) return Cmp{kind}; else return Cmp{}; }
    static Key key(int k) { return MkKey<Key>::mk(k); }
    static E entry(int k, int v) { if constexpr (Map) return E(key(k), Val<Mapped>::mk(v)); else return key(k); }
    static std::pair<int, int> get(const E& e) { if constexpr (Map) return {kv(e.first), Val<Mapped>::get(e.second)}; else return {kv(e), 0}; }
    template <class It> static std::string jl(It b, It e) { std::string r = "["; bool f = true; for (; b != e; ++b) { auto p = get(*b); r += (f ? "[" : ",[") + std::to_string(p.first) + "," + std::to_string(p.second) + "]"; f = false; } return r + "]"; }
    std::string state(int k) { const auto& c = m[k]->container(); Rec r; r.raw("c", jl(c.begin(), c.end())); return r.obj(); }

    void run(const Script& s) {
        counter = 0;
        for (int k = 0; k < 2; ++k) m[k] = new (store[k]) M();
        Rec cfg; cfg.str("name", s.cfg).b("map", Map).num("max", Max);
        Trace t(s.id, cfg);
        for (auto& op : s.ops) { Rec r; r.str("op", op.name); if (step(op, r)) t.ev(r); }
        for (int k = 0; k < 2; ++k) m[k]->~M();
    }
    bool step(const Op& op, Rec& r) {
        const std::string& n = op.name;
        int o = int(op.arg(0, 1) - 1) & 1;
        M& a = *m[o]; M& b = *m[1 - o]; const M& ca = a;
        std::string ex; std::vector<long> ret;
        long sz = long(a.size());
        auto pos = [&](auto it) { return long(it - a.begin()); };
        auto cpos = [&](auto it) { return long(it - ca.begin()); };
        auto call = [&](auto&& f) { ex = guarded(f); };
        auto recon = [&](auto&& f) { a.~M(); call([&] { f(store[o]); }); if (!ex.empty()) new (store[o]) M(); };
        auto P = [&](size_t i) { long x = op.arg(i); return sz ? x % sz : 0; };
        int k = int(op.arg(1));
        r.num("o", o + 1);
        auto lookup = [&](auto&& f) { // kk, k
            int kk = int(op.arg(1)), x = int(op.arg(2));
            if (kk == 2) x %= 7;
            r.num("kk", kk).num("k", x);
            if (kk == 0) call([&] { f(key(x)); }); else if (kk == 1) call([&] { f(Het{x}); }); else call([&] { f(Grp{x}); });
        };
        auto input = [&] { std::vector<std::pair<int, int>> v; for (size_t i = 2; i < op.a.size() && (!Max || long(v.size()) < Max); ++i) v.push_back({int(op.a[i]), Map ? next() : 0});
            std::string j = "["; for (size_t i = 0; i < v.size(); ++i) j += (i ? ",[" : "[") + std::to_string(v[i].first) + "," + std::to_string(v[i].second) + "]"; r.raw("vs", j + "]"); return v; };
        int ord = stateful ? int(op.arg(1)) : 0;
        if (n == "c_def") { r.num("ord", ord); recon([&](void* p) { if (ord) new (p) M(cmp(ord)); else new (p) M(); }); }
        else if (n == "c_vec") { auto v = input(); r.num("ord", ord); recon([&](void* p) { C c; for (auto& x : v) c.push_back(entry(x.first, x.second)); if (ord) new (p) M(std::move(c), cmp(ord)); else new (p) M(std::move(c)); }); }
        else if (n == "c_range" || n == "c_il") {
            if constexpr (copy) {
                auto v = input(); r.num("ord", ord);
                std::vector<E> es; for (auto& x : v) es.push_back(entry(x.first, x.second));
                if (n == "c_range") recon([&](void* p) { if (ord) new (p) M(es.begin(), es.end(), cmp(ord)); else new (p) M(es.begin(), es.end()); });
                else { if (es.size() > 24) return false;
                    recon([&](void* p) { auto go = [&](std::initializer_list<E> l) { if (ord) new (p) M(l, cmp(ord)); else new (p) M(l); };
                        with_il<24, E>(es.size(), [&](int i) { return es[i]; }, go); }); }
            } else return false;
        }
        else if (n == "c_copy") { if constexpr (copy) recon([&](void* p) { new (p) M(static_cast<const M&>(b)); }); else return false; }
        else if (n == "a_copy") { if constexpr (copy) call([&] { a = static_cast<const M&>(b); }); else return false; }
        else if (n == "a_self") { if constexpr (copy) call([&] { const M& x = a; a = x; }); else return false; }
        else if (n == "c_move") recon([&](void* p) { new (p) M(std::move(b)); });
        else if (n == "a_move") call([&] { a = std::move(b); });
        else if (n == "swap") { if constexpr (HasSwap<C>::value) call([&] { if (op.arg(1) % 2) b.swap(a); else a.swap(b); }); else return false; }
        else if (n == "clear") call([&] { a.clear(); });
        else if (n == "reserve") { if constexpr (HasReserve<C>::value) call([&] { a.reserve(size_t(op.arg(1))); if (long(a.capacity()) < op.arg(1)) ret = {0}; else ret = {1}; }); else return false; }
        else if (n == "ins" || n == "insm" || n == "insp" || n == "empl") {
            int v = Map ? next() : 0; r.num("k", k).num("v", v);
            std::pair<typename M::iterator, bool> q{};
            if (n == "ins") { if constexpr (copy) { E e = entry(k, v); call([&] { const E& c = e; q = a.insert(c); }); if (ex.empty() && get(e) != std::make_pair(k, v)) ex = "source changed"; } else return false; }
            else if (n == "insm") { E e = entry(k, v); call([&] { q = a.insert(std::move(e)); }); }
            else if (n == "insp") { // a source of another type
                if constexpr (Map && std::is_same<Key, int>::value) { std::pair<short, Mapped> e(short(k), Val<Mapped>::mk(v)); call([&] { q = a.insert(std::move(e)); }); }
                else if constexpr (!Map && std::is_same<Key, int>::value) { short e = short(k); call([&] { q = a.insert(e); }); }
                else if constexpr (copy) { E e = entry(k, v); call([&] { q = a.insert(e); }); }
                else return false;
            }
            else call([&] { if constexpr (Map) q = a.emplace(key(k), Val<Mapped>::mk(v)); else q = a.emplace(k); });
            if (ex.empty()) ret = {pos(q.first), q.second};
        }
        else if (n == "inself") { if constexpr (copy) { if (!sz) return false; long p = P(1); r.num("p", p); call([&] { auto q = a.insert(*(a.begin() + p)); ret = {pos(q.first), q.second}; }); } else return false; }
        else if (n == "find") lookup([&](const auto& x) { ret = {pos(a.find(x))}; });
        else if (n == "cfind") lookup([&](const auto& x) { ret = {cpos(ca.find(x))}; });
        else if (n == "lb") lookup([&](const auto& x) { ret = {pos(a.lower_bound(x))}; });
        else if (n == "clb") lookup([&](const auto& x) { ret = {cpos(ca.lower_bound(x))}; });
        else if (n == "ub") lookup([&](const auto& x) { ret = {pos(a.upper_bound(x))}; });
        else if (n == "cub") lookup([&](const auto& x) { ret = {cpos(ca.upper_bound(x))}; });
        else if (n == "eqr") lookup([&](const auto& x) { auto q = a.equal_range(x); ret = {pos(q.first), pos(q.second)}; });
        else if (n == "ceqr") lookup([&](const auto& x) { auto q = ca.equal_range(x); ret = {cpos(q.first), cpos(q.second)}; });
        else if (n == "cnt") lookup([&](const auto& x) { ret = {long(ca.count(x))}; });
        else if (n == "rm") lookup([&](const auto& x) { ret = {long(a.erase(x))}; });
        else if (n == "rmself") { if (!sz) return false; long p = P(1); r.num("p", p); call([&] { if constexpr (Map) ret = {long(a.erase((a.begin() + p)->first))}; else ret = {long(a.erase(static_cast<const Key&>(*(a.begin() + p))))}; }); }
        else if (n == "rmi") { if (!sz) return false; long p = P(1); r.num("p", p); call([&] { ret = {pos(a.erase(a.begin() + p))}; }); }
        else if (n == "rmci") { if (!sz) return false; long p = P(1); r.num("p", p); call([&] { ret = {pos(a.erase(ca.begin() + p))}; }); }
        else if (n == "mod") { if (!sz) return false; call([&] { a.modify_container().pop_back(); }); }
        else if (n == "modrm") { if (!sz) return false; long p = P(1); r.num("p", p); call([&] { auto& c = a.modify_container(); c.erase(c.begin() + p); }); }
        else if (n == "eq") { if constexpr (copy) { bool e1 = a == b, e2 = b == a, e3 = a != b; ret = {e1 == e2 && e1 != e3 ? e1 : 7}; } else return false; }
        else if (n == "obs") {
            r.raw("fw", jl(a.begin(), a.end())).raw("cfw", jl(ca.begin(), ca.end())).raw("ccfw", jl(a.cbegin(), a.cend()));
            r.raw("rv", jl(a.rbegin(), a.rend())).raw("crv", jl(ca.rbegin(), ca.rend())).b("em", ca.empty()).num("sz", long(ca.size())).b("mx", ca.max_size() >= ca.size());
            int kc = -1; if constexpr (!Map && stateful) kc = a.key_comp().kind; r.num("kc", kc);
        }
        else if constexpr (Map) {
            if (n == "idx") { int v = -1; r.num("k", k); if constexpr (std::is_copy_constructible<Key>::value) call([&] { Key x = key(k); v = Val<Mapped>::get(a[x]); if (kv(x) != k) v = -99; }); else return false; if (ex.empty()) ret = {v}; }
            else if (n == "idxm") { int v = -1; r.num("k", k); call([&] { v = Val<Mapped>::get(a[key(k)]); }); if (ex.empty()) ret = {v}; }
            else if (n == "idxset") { int v = next(); r.num("k", k).num("v", v); call([&] { auto y = Val<Mapped>::mk(v); a[key(k)] = std::move(y); }); }
            else if (n == "idxself") { if (!sz || !std::is_copy_constructible<Key>::value) return false; long p = P(1); r.num("p", p); call([&] { if constexpr (std::is_copy_constructible<Key>::value) ret = {Val<Mapped>::get(a[(a.begin() + p)->first])}; }); }
            else if (n == "at") { r.num("k", k); call([&] { ret = {Val<Mapped>::get(a.at(key(k)))}; }); }
            else if (n == "cat") { r.num("k", k); call([&] { ret = {Val<Mapped>::get(ca.at(key(k)))}; }); }
            else if (n == "atset") { int v = next(); r.num("k", k).num("v", v); call([&] { a.at(key(k)) = Val<Mapped>::mk(v); }); }
            else if (n == "setv") { if (!sz) return false; long p = P(1); int v = next(); r.num("p", p).num("v", v); call([&] { (a.begin() + p)->second = Val<Mapped>::mk(v); }); }
            else return false;
        }
        else return false;
        r.arr("r", ret).str("ex", ex).raw("s", "[" + state(0) + "," + state(1) + "]");
        return true;
    }
};
using uptr = std::unique_ptr<int>; using str = std::string;
template <class E> using vec = std::vector<E>; template <class E> using deq = std::deque<E>;
template <class E> using small = itlib::small_vector<E, 3>; template <class E> using stv = itlib::static_vector<E, 40>; template <class E> using stv5 = itlib::static_vector<E, 5>;
template <class K, class V, class Cmp, template <class> class C, int Max> void gm(const Script& s) { static Run<itlib::flat_map<K, V, Cmp, C<std::pair<K, V>>>, true, K, V, Cmp, Max> r; r.run(s); }
template <class K, class Cmp, template <class> class C, int Max> void gs(const Script& s) { static Run<itlib::flat_set<K, Cmp, C<K>>, false, K, int, Cmp, Max> r; r.run(s); }
using lessm = itlib::fmimpl::less; using lesss = itlib::fsimpl::less;
#define FM(K, V, O, C, X) static Reg m_##K##_##V##_##O##_##C("map_" #K "_" #V "_" #O "_" #C, gm<K, V, O, C, X>);
#define FS(K, O, C, X) static Reg s_##K##_##O##_##C("set_" #K "_" #O "_" #C, gs<K, O, C, X>);
#if PART == 0
FM(int, int, Ord, vec, 0) FM(int, str, lessm, vec, 0)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
FM(KMo, str, Ord, vec, 0) FM(KMo, uptr, lessm, small, 0) FM(KStr, int, Ord, vec, 0) FM(int, uptr, Ord, vec, 0)
#elif PART == 2
FM(int, int, Ord, deq, 0) FM(int, str, Ord, small, 0)
#elif PART == 3
FM(int, int, Ord, stv, 40) FM(int, str, Ord, stv5, 5)
#elif PART == 4
FS(int, Ord, vec, 0) FS(KStr, lesss, vec, 0)
#elif PART == 5
FS(KStr, Ord, vec, 0) FS(int, Ord, small, 0)
#elif PART == 6
FS(KMo, Ord, vec, 0) FS(KMo, lesss, stv5, 5) FS(KStr, Ord, deq, 0) FS(int, Ord, stv, 40)
#elif PART == 7
FS(int, Ord, stv5, 5) FS(int, lesss, vec, 0)
#endif
