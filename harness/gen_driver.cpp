// Driver for generator (C++20).
#include "vh.hpp"
#include <itlib/generator.hpp>
#include <set>
using namespace vh;
static std::string elog; static long live_, bad_; static std::set<const void*> objs;
static void log(int k, int id, int i) { elog += (elog.empty() ? "[" : ",[") + std::to_string(k) + "," + std::to_string(id) + "," + std::to_string(i) + "]"; }
static std::string drain() { std::string r = "[" + elog + "]"; elog.clear(); return r; }
struct Num { int k; };
struct L { int id, i; L(int a, int b) : id(a), i(b) { log(2, id, i); } L(const L&) = delete; ~L() { log(3, id, i); } };
struct Stack { int id; std::vector<std::unique_ptr<L>> v; explicit Stack(int i) : id(i) {} Stack(const Stack&) = delete; ~Stack() { while (!v.empty()) v.pop_back(); log(8, id, 0); } };
struct P { int id; explicit P(int i) : id(i) {} P(P&& o) noexcept : id(o.id) { o.id = 0; } ~P() { if (id) log(5, id, 0); id = 0; } };
struct Mo { // a value that only moves; every object is accounted for
    int v; void born() { ++live_; if (!objs.insert(this).second) ++bad_; }
    explicit Mo(int x) : v(x) { born(); } Mo(Mo&& o) noexcept : v(o.v) { if (!objs.count(&o)) ++bad_; o.v = MOVED; born(); }
    Mo& operator=(Mo&& o) noexcept { if (!objs.count(&o) || !objs.count(this)) ++bad_; int t = o.v; o.v = MOVED; v = t; return *this; }
    ~Mo() { --live_; if (!objs.erase(this)) ++bad_; v = -99; }
};
static int arr[128];
static int refidx(const int* p) { return p >= arr && p < arr + 128 ? int(p - arr) : -8; }
template <class T> struct K;
template <> struct K<int> { static int mk(int v) { return v; } static int get(const int& v) { return v; } };
template <> struct K<Mo> { static Mo mk(int v) { return Mo(v); } static int get(const Mo& m) { return objs.count(&m) ? m.v : -9; } };
template <> struct K<std::string> { static std::string mk(int v) { return Val<std::string>::mk(v + 1); } static int get(const std::string& s) { return s.empty() ? MOVED : Val<std::string>::get(s) - 1; } };
template <> struct K<std::unique_ptr<int>> { static std::unique_ptr<int> mk(int v) { return std::unique_ptr<int>(new int(v)); } static int get(const std::unique_ptr<int>& p) { return p ? *p : MOVED; } };
template <> struct K<int&> { static int& mk(int v) { return arr[v]; } static int get(int& r) { return refidx(&r); } };
template <> struct K<const int&> { static const int& mk(int v) { return arr[v]; } static int get(const int& r) { return refidx(&r); } };
template <class T> using Gen = itlib::generator<T>;
template <class T> static Gen<T> inner() { for (int i = 1; i <= 3; ++i) co_yield K<T>::mk(i); }
template <class T> static Gen<T> body(P p, std::vector<int> prog) {
    log(1, p.id, 0);
    Stack st(p.id); int n = 0;
    for (int c : prog) {
        ++n;
        if (c == 1) st.v.emplace_back(new L(p.id, n));
        else if (c == 2) { log(7, p.id, n); throw Num{n}; }
        else if (c == 3) { --n; for (auto&& v : inner<T>()) { log(4, p.id, ++n); if constexpr (std::is_reference_v<T>) co_yield v; else co_yield std::move(v); } }
        else { log(4, p.id, n); co_yield K<T>::mk(c - 10); }
    }
    log(6, p.id, 0);
}
template <class T> struct World {
    using It = typename Gen<T>::pseudo_iterator;
    std::unique_ptr<Gen<T>> g[4]; std::unique_ptr<It> it[4]; int n = 0; Trace& tr;
    explicit World(Trace& t) : tr(t) { live_ = bad_ = 0; objs.clear(); elog.clear(); for (int i = 0; i < 128; ++i) arr[i] = i; }
    std::string out, got;
    void val(int v) { out = "[\"value\"," + std::to_string(v) + "]"; }
    void at(int i) { if (*it[i] == g[i]->end()) out = "[\"end\",0]"; else { int a = K<T>::get(**it[i]), b = K<T>::get(**it[i]); val(a == b ? a : -5); } if ((*it[i] != g[i]->end()) == (*it[i] == g[i]->end())) ++bad_; if ((g[i]->end() == *it[i]) != (*it[i] == g[i]->end()) || (g[i]->end() != *it[i]) == (*it[i] == g[i]->end())) ++bad_; }
    bool has(int i) { return g[i] && *g[i]; }
    void op(const Op& o) {
        const std::string& n_ = o.name; int i = int(o.arg(0)) & 3; long h = o.arg(1); int j = int(h) & 3; out = "[\"ok\",0]"; got = "[]"; std::vector<int> gs;
        std::vector<int> prog; for (size_t k = 2; k < o.a.size(); ++k) prog.push_back(int(o.a[k]));
        bool fine = n_ == "new" ? !has(i) : n_ == "next" || n_ == "begin" || n_ == "for" || n_ == "loop" || n_ == "done" ? has(i) : n_ == "inc" ? has(i) && it[i] && *it[i] != g[i]->end() : n_ == "deref" || n_ == "take" ? has(i) && it[i] && *it[i] != g[i]->end() && fresh[i] : n_ == "move" ? i != j && !has(j) : true;
        if (!fine) return;
        Rec head; head.str("op", n_).num("g", i).num("h", n_ == "for" ? h : j).arr("p", prog);
        try {
            if (n_ == "new") g[i].reset(new Gen<T>(body<T>(P(++n), prog)));
            else if (n_ == "next") { fresh[i] = false; auto v = g[i]->next(); if (v.has_value() != bool(v)) ++bad_; if (v) val(K<T>::get(*v)); else out = "[\"end\",0]"; }
            else if (n_ == "begin") { it[i].reset(); fresh[i] = false; it[i].reset(new It(g[i]->begin())); fresh[i] = true; at(i); }
            else if (n_ == "inc") { fresh[i] = false; auto& r = ++*it[i]; if (&r != it[i].get()) ++bad_; fresh[i] = true; at(i); }
            else if (n_ == "deref") at(i);
            else if (n_ == "take") { if constexpr (std::is_reference_v<T>) val(K<T>::get(**it[i])); else { T v = std::move(**it[i]); val(K<T>::get(v)); } fresh[i] = false; }
            else if (n_ == "for") { it[i].reset(); fresh[i] = false; long k = 0; bool left = false; for (auto&& v : *g[i]) { gs.push_back(K<T>::get(v)); if (++k == h) { left = true; break; } } out = left ? "[\"left\",0]" : "[\"end\",0]"; }
            else if (n_ == "loop") { it[i].reset(); fresh[i] = false; while (auto v = g[i]->next()) gs.push_back(K<T>::get(*v)); out = "[\"end\",0]"; }
            else if (n_ == "move") { if (g[i]) { g[j].reset(new Gen<T>(std::move(*g[i]))); it[j] = std::move(it[i]); fresh[j] = fresh[i]; } }
            else if (n_ == "assign") { if (!g[i] && !g[j]) {} else if (!g[i]) g[j]->reset(), it[j].reset(); else if (!g[j]) { g[j].reset(new Gen<T>(std::move(*g[i]))); it[j] = std::move(it[i]); fresh[j] = fresh[i]; } else { auto& r = (*g[j] = std::move(*g[i])); if (&r != g[j].get()) ++bad_; if (i != j) { it[j] = std::move(it[i]); fresh[j] = fresh[i]; } } }
            else if (n_ == "swap") { if (g[i] && g[j] ) { using std::swap; swap(*g[i], *g[j]); } else std::swap(g[i], g[j]); std::swap(it[i], it[j]); std::swap(fresh[i], fresh[j]); }
            else if (n_ == "reset") { it[i].reset(); if (g[i]) g[i]->reset(); }
            else if (n_ == "drop") { it[i].reset(); g[i].reset(); }
        } catch (const Num& e) { out = "[\"throw\"," + std::to_string(e.k) + "]"; }
        std::string st; for (int k = 0; k < 4; ++k) { st += (k ? "," : "") + std::string(!has(k) ? "0" : g[k]->done() ? "2" : "1"); }
        Rec r = head; r.raw("out", out).arr("got", gs).raw("log", drain()).raw("st", "[" + st + "]").num("bad", bad_); tr.ev(r);
    }
    bool fresh[4] = {};
    void end() { for (int k = 0; k < 4; ++k) { it[k].reset(); g[k].reset(); } Rec r; r.str("op", "End").raw("log", drain()).num("live", live_).num("bad", bad_); tr.ev(r); }
};
template <class T> static void run(const Script& s) { Rec c; c.str("name", s.cfg); Trace t(s.id, c); World<T> w(t); for (auto& o : s.ops) w.op(o); w.end(); }
static Reg a1("int", run<int>), a2("mo", run<Mo>), a3("str", run<std::string>), a4("up", run<std::unique_ptr<int>>), a5("ref", run<int&>), a6("cref", run<const int&>);
int main(int c, char** v) { return drive(c, v, 20); }
