// Driver for transparent_umap over several key types, hashes and kinds of lookup.
#include "vh.hpp"
#include <itlib/transparent_umap.hpp>
#include <string>
#include <string_view>
#include <optional>
using namespace vh;
static long made; // keys constructed
struct View { int k; };
struct Tens { int t; };
struct Conv { int k; };
struct Own { int k; }; // what a key made of a temporary one takes
struct Key {
    int k;
    explicit Key(int x) : k(x) { ++made; } explicit Key(View v) : Key(v.k) {} explicit Key(Tens t) : Key(t.t * 10) {} Key(Conv c) : Key(c.k) {} explicit Key(const Own& x) : Key(x.k) {} explicit Key(Own&& x) : Key(x.k) { x.k = -5; }
    Key(const Key& o) : Key(o.k) {} Key(Key&& o) noexcept : Key(o.k) { o.k = -5; }
    Key& operator=(const Key&) = delete;
    operator View() const { return {k}; } operator Tens() const { return {k / 10}; }
};
inline bool operator==(const Key& a, const Key& b) { return a.k == b.k; }
inline int kv(const Key& k) { return k.k; } inline int kv(View v) { return v.k; } inline int kv(const Own& v) { return v.k; }
template <int Eq> struct HashK { using is_transparent = void;
    static size_t h(int c) { return Eq == 10 ? size_t(c % 3) : size_t(c); }
    template <class X> size_t operator()(const X& x) const { return h(Eq == 10 ? kv(x) / 10 : kv(x)); } size_t operator()(Tens t) const { return h(t.t); } };
template <int Eq> struct EqK { using is_transparent = void;
    template <class A, class B> bool operator()(const A& a, const B& b) const { return Eq == 10 ? kv(a) / 10 == kv(b) / 10 : kv(a) == kv(b); }
    template <class A> bool operator()(const A& a, Tens t) const { return kv(a) / 10 == t.t; } template <class A> bool operator()(Tens t, const A& a) const { return kv(a) / 10 == t.t; } };
template <class T> struct Opaque : T { using is_transparent = int; };               // transparent by another type
struct HashPlain { size_t operator()(const Key& k) const { return size_t(k.k); } }; // knows keys only
struct EqPlain { bool operator()(const Key& a, const Key& b) const { return a.k == b.k; } };
struct SvHash { using is_transparent = void; size_t operator()(std::string_view s) const { return std::hash<std::string_view>()(s); } };
inline std::string txt(int k) { return "key " + std::to_string(k) + " which is longer than any small buffer"; }
inline int kv(const std::string& s) { return s.size() < 10 ? -5 : atoi(s.c_str() + 4); }

struct V { // a value
    int v; V() : v(0) {} explicit V(int x) : v(x) { if (x == 77) throw Boom(); } V(const V& o) : v(o.v) {} V(V&& o) noexcept : v(o.v) { o.v = -1; }
    V& operator=(const V& o) { v = o.v; return *this; } V& operator=(V&& o) noexcept { int x = o.v; o.v = -1; v = x; return *this; }
    V& operator=(int) = delete;
    bool operator==(const V& o) const { return v == o.v; }
};
struct MoV { std::unique_ptr<int> p{new int(0)}; MoV() = default; explicit MoV(int x) : p(new int(x)) { if (x == 77) throw Boom(); } MoV(MoV&&) = default; MoV& operator=(MoV&&) = default; bool operator==(const MoV& o) const { return *p == *o.p; } };
inline int vv(const V& v) { return v.v; } inline int vv(const MoV& v) { return v.p ? *v.p : -1; } inline int vv(int v) { return v; }
struct Arg { int v; operator int() && { int x = v; v = -1; return x; } };  // taken when it is used

// what a map offers for a value of type X as the key
template <class M, class X> std::string offers() {
    bool te = requires(M& m, X x) { m.try_emplace(static_cast<X&&>(x)); }, teh = requires(M& m, X x) { m.try_emplace(m.cbegin(), static_cast<X&&>(x)); },
         idx = requires(M& m, X x) { m[static_cast<X&&>(x)]; }, at = requires(M& m, X x) { m.at(x); }, cat = requires(const M& m, X x) { m.at(x); };
    std::string s; for (bool b : {te, teh, idx, at, cat}) s += b ? "1" : "0"; return s;
}
// values made where they are and never moved
struct Still { int v; explicit Still(int x = 0) : v(x) {} Still(const Still&) = delete; Still& operator=(const Still&) = delete; };
static std::string still() {
    itlib::transparent_umap<Key, Still, HashPlain, EqPlain> m; std::string s; auto put = [&](auto&& p) { s += std::to_string(p.first->first.k) + ":" + std::to_string(p.first->second.v) + (p.second ? "+" : "-"); };
    put(m.try_emplace(Key(1), 5)); put(m.try_emplace(Conv{1}, 6)); put(m.try_emplace(Conv{2}, 7)); m[Key(3)].v = 8; m[Conv{3}].v += 1; put(m.try_emplace(Key(3), 1)); s += std::to_string(m.at(Conv{2}).v);
    return s;
}

// a key which can be made of anything: an iterator is a hint all the same
struct AnyKey { int k; template <class X> explicit AnyKey(const X& x) : k(-1) { if constexpr (std::is_convertible_v<X, int>) k = int(x); } };
struct AnyHash { using is_transparent = void; size_t operator()(const AnyKey& a) const { return size_t(a.k); } size_t operator()(int k) const { return size_t(k); } };
struct AnyEq { using is_transparent = void; static int v(const AnyKey& a) { return a.k; } static int v(int k) { return k; } template <class A, class B> bool operator()(const A& a, const B& b) const { return v(a) == v(b); } };
static std::string hinted() {
    itlib::transparent_umap<AnyKey, int, AnyHash, AnyEq> m; std::string s; auto put = [&](auto&& i) { s += std::to_string(i->first.k) + ":" + std::to_string(i->second) + ";"; };
    put(m.try_emplace(m.begin(), 5, 6)); put(m.try_emplace(m.end(), 5, 7)); put(m.try_emplace(m.cbegin(), 8, 9)); auto it = m.begin(); const auto ci = m.cend(); put(m.try_emplace(it, 4)); put(m.try_emplace(ci, 3, 2)); put(m.try_emplace(it, AnyKey(8), 1)); s += std::to_string(m.size());
    return s;
}
template <class M, class K, int Kinds, bool Copy, int Eq, bool Nk> struct Run {
    using T = typename M::mapped_type;
    std::optional<M> m[2]; std::map<const void*, int> ids;
    static K key(int k) { if constexpr (std::is_same_v<K, Key>) return Key(k); else return K(txt(k)); }
    int node(const void* p) { return ids.emplace(p, int(ids.size()) + 1).first->second; }
    template <class E> std::string ent(const E& e) { return "[" + std::to_string(kv(e.first)) + "," + std::to_string(vv(e.second)) + "," + std::to_string(node(&e)) + "]"; }
    std::string st(const M& x) { std::map<int, std::string> r; for (auto& e : x) r[kv(e.first) * 64 + int(r.size())] = ent(e); std::string s = "["; for (auto& p : r) s += (s.size() > 1 ? "," : "") + p.second; return s + "]"; }
    // calls f with the key as a value of kind kk
    template <class F> bool by(int kk, int k, bool& left, F&& f) {
        left = true;
        switch (kk) {
        case 0: { const K x = key(k); made = 0; f(x); return true; }
        case 1: { K x = key(k); made = 0; f(std::move(x)); left = kv(x) == k; return true; }
        case 6: if constexpr ((Kinds & 64) != 0) { if constexpr (std::is_same_v<K, Key>) { made = 0; f(Conv{k}); } else { std::string s = txt(k); const char* p = s.c_str(); f(p); } return true; } break;
        case 2: case 3: case 4: if constexpr ((Kinds & 4) != 0) {
            if constexpr (std::is_same_v<K, Key>) { View v{k}; const View& cv = v; made = 0; if (kk == 2) f(View{k}); else if (kk == 3) f(cv); else f(v); left = v.k == k; }
            else { std::string s = txt(k); std::string_view v = s; const std::string_view& cv = v; if (kk == 2) f(std::string_view(s)); else if (kk == 3) f(cv); else f(v); left = v == s; }
            return true; } break;
        case 7: if constexpr ((Kinds & 128) != 0) { Own x{k}; made = 0; f(std::move(x)); left = x.k == k; return true; } break;
        case 5: if constexpr ((Kinds & 32) != 0) { Tens t{k}; made = 0; f(t); return true; } break;
        }
        return false;
    }
    // calls which take the key as it is; what is transparent for lookup but not for the call goes by the key
    void run(const Script& s) {
        Rec cfg; cfg.str("name", s.cfg).num("eq", Eq).b("nk", Nk).b("tr", (Kinds & 4) != 0);
        using X1 = std::conditional_t<std::is_same_v<K, Key>, View, std::string_view>; struct Not {};
        cfg.str("byView", offers<M, X1>()).str("byConstView", offers<M, const X1&>()).str("byKey", offers<M, K>()).str("byConst", offers<M, const K&>()).str("byNone", offers<M, Not>()).b("putNone", offers<M, Not>()[0] == '1' || offers<M, Not>()[2] == '1').str("byIt", offers<M, typename M::iterator>() .substr(0, 1)).str("byCit", offers<M, typename M::const_iterator>().substr(0, 1)).str("still", still()).str("hinted", hinted());
        m[0].emplace(); m[1].emplace(); Trace t(s.id, cfg);
        for (auto& op : s.ops) step(op, t);
        m[0].reset(); m[1].reset();
    }
    void step(const Op& op, Trace& t) {
        const std::string& n = op.name; int o = int(op.arg(0, 1) - 1) & 1, kk = int(op.arg(1)), k = int(op.arg(2)), v = int(op.arg(3));
        if constexpr (Eq != 10) if (kk == 5) return;
        M& a = *m[o]; const M& ca = a; M& b = *m[1 - o]; long in = -1, nk = 0; std::string e = "[-1,-1,0]", ex; bool left = true; Arg arg{v}; std::string vs = "[]", fw; bool done = true;
        if ((n == "idxset" || n == "ioa" || n == "atset") && v == 77) v = 1, arg.v = 1;
        auto pr = [&](auto&& p) { in = p.second; nk = made; e = ent(*p.first); };
        auto itr = [&](auto&& i) { nk = made; e = ent(*i); };
        auto ref = [&](T& x) { nk = made; for (auto& q : a) if (&q.second == &x) e = ent(q); };
        auto cref = [&](const T& x) { nk = made; for (auto& q : a) if (&q.second == &x) e = ent(q); };
        auto hint = [&] { return op.arg(4) % 2 ? ca.begin() : ca.end(); };
        ex = guarded([&] {
            if (n == "te") done = by(kk, k, left, [&](auto&& x) { pr(a.try_emplace(std::forward<decltype(x)>(x), std::move(arg))); });
            else if (n == "te0") done = by(kk, k, left, [&](auto&& x) { pr(a.try_emplace(std::forward<decltype(x)>(x))); });
            else if (n == "teh") done = by(kk, k, left, [&](auto&& x) { itr(a.try_emplace(hint(), std::forward<decltype(x)>(x), std::move(arg))); });
            else if (n == "teh0") done = by(kk, k, left, [&](auto&& x) { itr(a.try_emplace(hint(), std::forward<decltype(x)>(x))); });
            else if (n == "idx") done = by(kk, k, left, [&](auto&& x) { ref(a[std::forward<decltype(x)>(x)]); });
            else if (n == "idxset") done = by(kk, k, left, [&](auto&& x) { T& y = a[std::forward<decltype(x)>(x)]; nk = made; y = T(v); ref(y); });
            else if (n == "at") done = by(kk, k, left, [&](auto&& x) { static_assert(std::is_same_v<decltype(a.at(x)), T&>); ref(a.at(x)); });
            else if (n == "atset") done = by(kk, k, left, [&](auto&& x) { T& y = a.at(x); nk = made; y = T(v); ref(y); });
            else if (n == "cat") done = by(kk, k, left, [&](auto&& x) { static_assert(std::is_same_v<decltype(ca.at(x)), const T&>); cref(ca.at(x)); });
            else if (n == "find") done = by(kk, k, left, [&](auto&& x) { auto i = a.find(x); auto j = ca.find(x); nk = made; if ((j == ca.end()) != (i == a.end()) || bool(ca.contains(x)) != (i != a.end())) in = -9; else in = long(ca.count(x)); if (i != a.end()) e = ent(*i); });
            else if (n == "ins") pr(a.insert(typename M::value_type(key(k), T(v))));
            else if (n == "emp") pr(a.emplace(key(k), T(v)));
            else if (n == "ioa") pr(a.insert_or_assign(key(k), T(v)));
            else if (n == "er") { const K x = key(k); in = long(a.erase(x)); }
            else if (n == "clear") a.clear();
            else if (n == "rehash") { if (op.arg(4) % 2) a.reserve(size_t(op.arg(4))); else a.rehash(size_t(op.arg(4))); }
            else if (n == "obs") { std::map<int, std::string> r; for (auto i = a.begin(); i != a.end(); ++i) r[kv(i->first)] = "[" + std::to_string(kv(i->first)) + "," + std::to_string(vv(i->second)) + "]"; fw = "["; for (auto& p : r) fw += (fw.size() > 1 ? "," : "") + p.second; fw += "]"; }
            else if (n == "c_il") { if constexpr (Copy) { std::vector<std::pair<const K, T>> l; vs = "["; for (size_t i = 4; i < op.a.size(); ++i) { l.emplace_back(key(int(op.a[i])), T(int(i))); vs += (i > 4 ? ",[" : "[") + std::to_string(op.a[i]) + "," + std::to_string(i) + "]"; } vs += "]";
                m[o].reset(); if (l.size() == 2) m[o].emplace({l[0], l[1]}); else m[o].emplace(l.begin(), l.end()); } else done = false; }
            else if (n == "c_copy") { if constexpr (Copy) { m[o].reset(); m[o].emplace(*m[1 - o]); } else done = false; }
            else if (n == "a_copy") { if constexpr (Copy) a = b; else done = false; }
            else if (n == "c_move") { m[o].reset(); m[o].emplace(std::move(b)); b.clear(); }
            else if (n == "a_move") { a = std::move(b); b.clear(); }
            else if (n == "swap") { if (op.arg(4) % 2) a.swap(b); else { using std::swap; swap(a, b); } }
            else if (n == "eq") { in = a == b; if ((a != b) == (in == 1)) in = -9; }
        });
        if (!done) return;
        Rec r; r.str("op", n).num("o", o + 1).num("kk", kk).num("k", k).num("v", v).raw("e", e).num("in", in).str("ex", ex).num("nk", nk).num("left", arg.v).b("kleft", left).num("n", long(m[o]->size()));
        if (!fw.empty()) r.raw("fw", fw);
        if (n == "c_il") r.raw("vs", vs);
        r.raw("s", "[" + st(*m[0]) + "," + st(*m[1]) + "]");
        t.ev(r);
    }
};
#define CONF(N, M, K, KINDS, COPY, EQ, NK) static Reg r_##N(#N, [](const Script& s) { Run<M, K, KINDS, COPY, EQ, NK> r; r.run(s); });
template <class... T> using TM = itlib::transparent_umap<T...>;
using M1 = TM<Key, V, HashK<1>, EqK<1>>; using M2 = TM<Key, V, HashK<10>, EqK<10>>; using M3 = TM<Key, MoV, HashK<10>, EqK<10>>;
using M4 = TM<std::string, V, SvHash, std::equal_to<>>; using M5 = TM<std::string, int>; using M6 = TM<Key, V, HashPlain, EqPlain>;
using M7 = TM<Key, V, HashK<1>, EqPlain>; using M8 = TM<Key, V, HashPlain, EqK<1>>; using M9 = TM<Key, int, Opaque<HashK<1>>, Opaque<EqK<1>>>;
CONF(obj, M1, Key, 4 | 128, true, 1, true)
CONF(tens, M2, Key, 4 | 32 | 128, true, 10, true)
CONF(mo, M3, Key, 4 | 32 | 128, false, 10, true)
CONF(str, M4, std::string, 4, true, 1, false)
CONF(strplain, M5, std::string, 64, true, 1, false)
CONF(plain, M6, Key, 64, true, 1, true)
CONF(halfh, M7, Key, 64, true, 1, true)
CONF(halfe, M8, Key, 64, true, 1, true)
CONF(opaque, M9, Key, 4 | 128, true, 1, true)
int main(int c, char** v) { return drive(c, v); }
