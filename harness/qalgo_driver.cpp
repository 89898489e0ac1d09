// Driver for qalgorithm over containers of the standard library and of this one.
#include "vh.hpp"
#include <itlib/qalgorithm.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/flat_set.hpp>
#include <itlib/span.hpp>
#include <array>
#include <deque>
#include <list>
#include <set>
#include <string>
#include <vector>
using namespace vh;
static long bad;
struct El { int key, tag; explicit El(int k = -9, int t = -1) : key(k), tag(t) {} El(const El&) = default; El& operator=(const El&) = default; El(El&& o) noexcept : key(o.key), tag(o.tag) { o.key = -3; } El& operator=(El&& o) noexcept { if (this != &o) { key = o.key; tag = o.tag; o.key = -3; } return *this; }
    explicit operator bool() const { if (key < 0) ++bad; return key != 0; } };
inline bool operator==(const El& a, const El& b) { if (a.key < 0 || b.key < 0) ++bad; return a.key == b.key; }
inline bool operator==(const El& a, int b) { if (a.key < 0) ++bad; return a.key == b; }
struct Mo { std::unique_ptr<El> p; explicit Mo(int k = -9, int t = -1) : p(new El(k, t)) {} explicit operator bool() const { return bool(*p); } }; // a value that cannot be copied
inline bool operator==(const Mo& a, int b) { if (!a.p) { ++bad; return false; } return *a.p == b; }
inline bool operator==(const Mo& a, const Mo& b) { return a == b.p->key; }
struct Pod { int key, tag; explicit operator bool() const { return key != 0; } };
inline bool operator==(const Pod& a, const Pod& b) { return a.key == b.key; }
inline bool operator==(const Pod& a, int b) { return a.key == b; }
static int key(const El& e) { return e.key; } static int key(const Mo& m) { return m.p ? m.p->key : -3; } static int key(int v) { return v; } static int key(const Pod& p) { return p.key; } static int key(const std::string& s) { return s.size() == 1 ? s[0] - 'a' : s.empty() ? 0 : 40; }
static int tag(const El& e) { return e.tag; } static int tag(const Mo& m) { return m.p ? m.p->tag : -3; } static int tag(const Pod& p) { return p.tag; } template <class X> static int tag(const X&) { return 0; }
template <class X> struct Mk { static X mk(int k, int t) { return X(k, t); } };
template <> struct Mk<Pod> { static Pod mk(int k, int t) { Pod p = {k, t}; return p; } };
template <> struct Mk<int> { static int mk(int k, int) { return k; } }; template <> struct Mk<bool> { static bool mk(int k, int) { return k != 0; } }; template <> struct Mk<char> { static char mk(int k, int) { return char(k); } };
static std::vector<long> seen; // what the predicates of the current call were applied to
struct Pred { unsigned m; template <class X> bool operator()(const X& x) const { int k = key(x); seen.push_back(k); if (k < 0) ++bad; return k >= 0 && k < 32 && (m >> k & 1); } };
template <class C> struct fill { template <class V> static void go(C& c, V&& v) { c.push_back(std::forward<V>(v)); } };
template <class X> struct fill<std::set<X>> { template <class V> static void go(std::set<X>& c, V&& v) { c.insert(v); } };
template <class X> struct fill<itlib::flat_set<X>> { template <class V> static void go(itlib::flat_set<X>& c, V&& v) { c.insert(v); } };
enum { FIND = 1, PTR = 2, ERASE = 4, ALL = 8 };
template <class C, int What, bool T = true> struct World {
    C c; using X = typename C::value_type; Trace& tr;
    explicit World(Trace& t) : tr(t) {}
    std::string st() { std::string r = "["; for (auto it = c.begin(); it != c.end(); ++it) r += (r.size() > 1 ? "," : "") + std::string("[") + std::to_string(key(*it)) + "," + std::to_string(tag(*it)) + "]"; return r + "]"; }
    template <class It> long pos(It i) { const C& k = c; return std::distance(k.begin(), typename C::const_iterator(i)); }
    template <class P> long ptr(P p) { if (!p) return -1; long n = 0; for (auto it = c.begin(); it != c.end(); ++it, ++n) if (&*it == p) return n; return -77; }
    long finds(std::true_type, const std::string& n, const Op& o, unsigned m, long& cr) { const C& k = c; auto v = Mk<X>::mk(int(o.arg(0)), 99);
        static_assert(std::is_same<decltype(itlib::qfind(k, v)), typename C::const_iterator>::value && std::is_same<decltype(itlib::qfind(c, v)), typename C::iterator>::value, "iterators as the container's constness");
        if (n == "qfind") { cr = pos(itlib::qfind(k, v)); return pos(itlib::qfind(c, v)); }
        cr = pos(itlib::qfind_if(k, Pred{m})); Pred p{m}; return pos(itlib::qfind_if(c, p)); }
    long ptrs(std::true_type, const std::string& n, const Op& o, unsigned m, long& cr) { const C& k = c; auto v = Mk<X>::mk(int(o.arg(0)), 99);
        static_assert(std::is_same<decltype(itlib::pfind(k, v)), typename C::const_pointer>::value, "pointers as the container's constness");
        if (n == "pfind") { cr = ptr(itlib::pfind(k, v)); return ptr(itlib::pfind(c, v)); }
        cr = ptr(itlib::pfind_if(k, Pred{m})); const Pred p{m}; return ptr(itlib::pfind_if(c, p)); }
    long first(std::true_type, const std::string& n, const Op& o, unsigned m) { auto v = Mk<X>::mk(int(o.arg(0)), 99); if (n == "erase1") return itlib::erase_first(c, v); return itlib::erase_first_if(c, Pred{m}); }
    long all(std::true_type, const std::string& n, const Op& o, unsigned m) { auto v = Mk<X>::mk(int(o.arg(0)), 99); static_assert(std::is_same<decltype(itlib::erase_all(c, v)), typename C::size_type>::value, ""); if (n == "eraseall") return long(itlib::erase_all(c, v)); Pred p{m}; return long(itlib::erase_all_if(c, p)); }
    long finds(std::false_type, const std::string&, const Op&, unsigned, long&) { return -1000; } long ptrs(std::false_type, const std::string&, const Op&, unsigned, long&) { return -1000; } long first(std::false_type, const std::string&, const Op&, unsigned) { return -1000; } long all(std::false_type, const std::string&, const Op&, unsigned) { return -1000; }
    void op(const Op& o) {
        const std::string& n = o.name; seen.clear(); long r = 0, cr = -1000; unsigned m = 0; const C& k = c; for (long a : o.a) m |= 1u << a; bad = 0;
        if (n == "set") { c = C(); int i = 0; for (long a : o.a) fill<C>::go(c, Mk<X>::mk(int(a), i++)); Rec e; e.str("op", n).raw("st", st()).num("bad", bad); tr.ev(e); return; }
        if (n == "qfind" || n == "qfindif") r = finds(std::integral_constant<bool, (What & FIND) != 0>(), n, o, m, cr); else if (n == "pfind" || n == "pfindif") r = ptrs(std::integral_constant<bool, (What & PTR) != 0>(), n, o, m, cr);
        else if (n == "erase1" || n == "erase1if") r = cr = first(std::integral_constant<bool, (What & ERASE) != 0>(), n, o, m); else if (n == "eraseall" || n == "eraseallif") r = cr = all(std::integral_constant<bool, (What & ALL) != 0>(), n, o, m);
        else if (n == "all") { cr = itlib::qall_of(k, Pred{m}); r = itlib::qall_of(c, Pred{m}); } else if (n == "any") { cr = itlib::qany_of(k, Pred{m}); r = itlib::qany_of(c, Pred{m}); } else if (n == "none") { cr = itlib::qnone_of(k, Pred{m}); r = itlib::qnone_of(c, Pred{m}); }
        else if (n == "all0") { r = itlib::qall_of(c); cr = itlib::qall_of(k); } else if (n == "any0") { r = itlib::qany_of(c); cr = itlib::qany_of(k); } else if (n == "none0") { r = itlib::qnone_of(c); cr = itlib::qnone_of(k); } else return;
        if (r == -1000) return; // not offered for this container
        Rec e; e.str("op", n).arr("v", o.a).num("res", r).num("cres", cr).raw("st", st()).num("bad", bad).arr("seen", seen); tr.ev(e);
    }
};
template <class C, int W> static void run(const Script& s) { Rec c; c.str("name", s.cfg); Trace t(s.id, c); World<C, W> w(t); for (auto& o : s.ops) w.op(o); }
// by a heterogeneous value
struct Het { std::vector<El> c; };
static void het(const Script& s) { Rec c; c.str("name", s.cfg); Trace t(s.id, c); std::vector<Mo> v; std::vector<El> u;
    for (auto& o : s.ops) { long r, cr; bad = 0; auto st = [&] { std::string x = "["; for (auto& e : v) x += (x.size() > 1 ? ",[" : "[") + std::to_string(key(e)) + "," + std::to_string(tag(e)) + "]"; return x + "]"; };
        seen.clear(); if (o.name == "set") { v.clear(); int i = 0; for (long a : o.a) v.emplace_back(int(a), i++); Rec e; e.str("op", "set").raw("st", st()).num("bad", bad); t.ev(e); continue; }
        const auto& k = v; int val = int(o.arg(0)); unsigned m = 0; for (long a : o.a) m |= 1u << a;
        if (o.name == "qfind") { r = itlib::qfind(v, val) - v.begin(); cr = itlib::qfind(k, val) - k.begin(); } else if (o.name == "pfind") { auto p = itlib::pfind(v, val); r = p ? p - v.data() : -1; auto q = itlib::pfind(k, val); cr = q ? q - k.data() : -1; }
        else if (o.name == "erase1") r = cr = itlib::erase_first(v, val); else if (o.name == "eraseall") r = cr = long(itlib::erase_all(v, val)); else if (o.name == "erase1if") r = cr = itlib::erase_first_if(v, [m](const Mo& x) { return Pred{m}(x); }); else if (o.name == "eraseallif") r = cr = long(itlib::erase_all_if(v, [&](const Mo& x) { return Pred{m}(x); })); else if (o.name == "all0") { r = itlib::qall_of(v); cr = itlib::qall_of(k); } else continue;
        Rec e; e.str("op", o.name).arr("v", o.a).num("res", r).num("cres", cr).raw("st", st()).num("bad", bad).arr("seen", seen); t.ev(e); } }
struct Sp { std::vector<El> v; }; // a view
static void span(const Script& s) { Rec c; c.str("name", s.cfg); Trace t(s.id, c); std::vector<El> v;
    for (auto& o : s.ops) { long r, cr; bad = 0; auto st = [&] { std::string x = "["; for (auto& e : v) x += (x.size() > 1 ? ",[" : "[") + std::to_string(e.key) + "," + std::to_string(e.tag) + "]"; return x + "]"; };
        seen.clear(); if (o.name == "set") { v.clear(); int i = 0; for (long a : o.a) v.emplace_back(int(a), i++); Rec e; e.str("op", "set").raw("st", st()).num("bad", bad); t.ev(e); continue; }
        itlib::span<El> x(v.data(), v.size()); const auto& k = x; El val(int(o.arg(0)), 77); unsigned m = 0; for (long a : o.a) m |= 1u << a;
        if (o.name == "qfind") { r = itlib::qfind(x, val) - x.begin(); cr = r; } else if (o.name == "pfind") { auto p = itlib::pfind(x, val); r = cr = p ? p - v.data() : -1; } else if (o.name == "qfindif") { r = itlib::qfind_if(x, Pred{m}) - x.begin(); cr = itlib::qfind_if(k, Pred{m}) - k.begin(); }
        else if (o.name == "all") { r = itlib::qall_of(x, Pred{m}); cr = itlib::qall_of(k, Pred{m}); } else if (o.name == "any") { r = itlib::qany_of(x, Pred{m}); cr = itlib::qany_of(k, Pred{m}); } else if (o.name == "none") { r = itlib::qnone_of(x, Pred{m}); cr = itlib::qnone_of(k, Pred{m}); } else continue;
        Rec e; e.str("op", o.name).arr("v", o.a).num("res", r).num("cres", cr).raw("st", st()).num("bad", bad).arr("seen", seen); t.ev(e); } }
static Reg a1("vec", run<std::vector<El>, 15>), a2("deq", run<std::deque<El>, 15>), a3("list", run<std::list<El>, 7>), a4("set", run<std::set<int>, FIND | ERASE>), a5("small", run<itlib::small_vector<El, 3>, 15>), a6("static", run<itlib::static_vector<El, 16>, 15>), a7("pod", run<itlib::pod_vector<Pod>, 15>), a8("flat", run<itlib::flat_set<int>, FIND | ERASE>), b1("het", het), b2("span", span), b3("str", run<std::string, 15>);
#ifndef PLAIN
static Reg a9("bits", run<std::vector<bool>, FIND | ERASE | ALL>); // proxies instead of references
#endif
int main(int c, char** v) { return drive(c, v, 20); }
