// Driver for sentry and ufunction.
#include "vh.hpp"
#include <itlib/sentry.hpp>
#include <itlib/ufunction.hpp>
using namespace vh;

// ---------------------------------------------------------------- functors with observable state
static std::string calls; static int copies = 0;
static void called(int id, int v) { Unwatched u; calls += (calls.empty() ? "[" : ",[") + std::to_string(id) + "," + std::to_string(v) + "]"; }
static std::string drain_calls() { std::string r = "[" + calls + "]"; calls.clear(); return r; }
struct Tracked { // an object in the ledger; copies are counted
    int id, v, n = 0; bool gone = false;
    void ev(int k) const { auto s = mem().slot(this, k == 1, k == 2); mem().emit({k, s.first, s.second}); }
    Tracked(int i, int x) : id(i), v(x) { ev(1); }
    Tracked(const Tracked& o) : id((o.ev(4), o.id)), v(o.v), n(o.n) { ++copies; ev(1); }
    Tracked(Tracked&& o) noexcept : id((o.ev(4), o.id)), v(o.v), n(o.n) { o.v = MOVED; o.gone = true; ev(1); }
    Tracked& operator=(const Tracked& o) { ++copies; o.ev(4); ev(3); id = o.id; v = o.v; n = o.n; return *this; }
    Tracked& operator=(Tracked&& o) noexcept { o.ev(4); ev(3); id = o.id; v = o.v; n = o.n; o.v = MOVED; o.gone = true; return *this; }
    ~Tracked() { ev(2); v = -99; }
};
struct S { Tracked t; S(int i, int v) : t(i, v) {} void operator()() { t.ev(4); called(t.id, t.v); } };                    // for scope guards
struct SC { Tracked t; SC(int i, int v) : t(i, v) {} void operator()() const { t.ev(4); called(t.id, t.v); } };
struct SM { Tracked t; std::unique_ptr<int> p; SM(int i, int v) : t(i, v), p(new int(v)) {} void operator()() { t.ev(4); called(t.id, p ? *p : -1); } };
static void fn0() { called(90, 0); }
static void fn1() { called(91, 0); }

// ---------------------------------------------------------------- guards in slots
struct Guard { virtual ~Guard() {} virtual Guard* move() { return nullptr; } };
template <class F> struct GuardOf : Guard {
    itlib::sentry<F> s;
    struct Mk {};
    template <class A> GuardOf(Mk, A&& a) : s(itlib::make_sentry(std::forward<A>(a))) {}
    struct Ct {};
    template <class A> GuardOf(Ct, A&& a) : s(std::forward<A>(a)) {}
#if __cplusplus < 201700
    GuardOf(GuardOf&& o) : s(std::move(o.s)) {}
    Guard* move() override { return new GuardOf(std::move(*this)); }
#endif
};
struct Ext { S s; SC c; Ext() : s(80, 0), c(81, 0) {} };
static Guard* mk(int kind, int id, int v, Ext& x) {
    switch (kind) {
        case 0: { S f(id, v); return new GuardOf<S>(GuardOf<S>::Mk(), std::move(f)); }
        case 1: return new GuardOf<S&>(GuardOf<S&>::Mk(), x.s);
        case 2: { const SC& c = x.c; return new GuardOf<const SC&>(GuardOf<const SC&>::Mk(), c); }
        case 3: return new GuardOf<void (&)()>(GuardOf<void (&)()>::Mk(), fn0);
        case 4: return new GuardOf<void (*)()>(GuardOf<void (*)()>::Mk(), &fn1);
        case 5: { SM f(id, v); return new GuardOf<SM>(GuardOf<SM>::Mk(), std::move(f)); }
        case 6: { auto p = std::make_shared<S>(id, v); std::function<void()> f([p] { (*p)(); }); p.reset(); return new GuardOf<std::function<void()>>(GuardOf<std::function<void()>>::Mk(), std::move(f)); }
        case 7: { S f(id, v); return new GuardOf<S>(GuardOf<S>::Ct(), std::move(f)); }
        default: { const SC f(id, v); return new GuardOf<const SC>(GuardOf<const SC>::Ct(), std::move(f)); }
    }
}
static void nest(const std::vector<int>& kinds, size_t i, int id, int how, Ext& x);
template <class G> static void inside(G&&, const std::vector<int>& kinds, size_t i, int id, int how, Ext& x) { nest(kinds, i + 1, id + 1, how, x); }
static itlib::sentry<S> give(int id) { return itlib::make_sentry(S(id, id)); }
static void nest(const std::vector<int>& kinds, size_t i, int id, int how, Ext& x) { // guards as locals, left by falling off the end, by return or by an exception
    if (i == kinds.size()) { called(0, 0); if (how == 2) throw Boom(); return; }
    switch (kinds[i]) {
        case 0: { auto s = itlib::make_sentry(S(id, id)); nest(kinds, i + 1, id + 1, how, x); if (how == 1) return; break; }
        case 1: { auto s = itlib::make_sentry(x.s); nest(kinds, i + 1, id + 1, how, x); if (how == 1) return; break; }
        case 2: { auto s = itlib::make_sentry([id] { called(id, id); }); nest(kinds, i + 1, id + 1, how, x); if (how == 1) return; break; }
        case 3: { auto s = itlib::make_sentry(fn0); nest(kinds, i + 1, id + 1, how, x); if (how == 1) return; break; }
        case 4: { inside(itlib::make_sentry(S(id, id)), kinds, i, id, how, x); break; }
        case 5: { try { auto s = itlib::make_sentry(S(id, id)); nest(kinds, i + 1, id + 1, how, x); } catch (...) { called(-1, 0); throw; } break; }
        case 6: { const auto& s = give(id); (void)s; nest(kinds, i + 1, id + 1, how, x); break; }
        default: { for (int q = 0; q < 2; ++q) { auto s = itlib::make_sentry(S(id, q)); if (q == 0) continue; nest(kinds, i + 1, id + 1, how, x); } }
    }
}
static void run_sentry(const Script& sc) {
    mem().reset(); copies = 0; calls.clear();
    Trace tr(sc.id, Rec().b("mv", __cplusplus < 201700));
    {
        Ext x; std::unique_ptr<Guard> g[3]; mem().drain();
        int serial = 0;
        for (auto& op : sc.ops) {
            Rec r; int k = int(op.arg(0)) % 3, j = int(op.arg(1)) % 3; copies = 0;
            r.str("op", op.name).num("k", k + 1).num("j", j + 1);
            bool did = true; std::string ex;
            if (op.name == "new") { did = !g[k]; r.num("q", op.arg(1)).num("v", op.arg(2)); if (did) g[k].reset(mk(int(op.arg(1)), ++serial, int(op.arg(2)), x)); r.num("id", serial); }
            else if (op.name == "move") { did = __cplusplus < 201700 && k != j && !g[k] && g[j]; if (did) g[k].reset(g[j]->move()); }
            else if (op.name == "drop") { did = !!g[k]; g[k].reset(); }
            else if (op.name == "poke") { x.s.t.v = int(op.arg(1)); x.c.t.v = int(op.arg(1)); r.num("v", op.arg(1)); }
            else if (op.name == "nest") {
                std::vector<int> ks(op.a.begin() + 1, op.a.end()), ids; int id = serial + 1; serial += int(ks.size());
                for (int q : ks) { (void)q; ids.push_back(id + int(ids.size())); }
                r.arr("qs", ks).arr("ids", ids).num("how", op.arg(0));
                ex = guarded([&] { nest(ks, 0, id, int(op.arg(0)), x); });
            }
            tr.ev(r.b("did", did).str("ex", ex).num("cp", copies).raw("calls", drain_calls()).raw("mem", mem().drain()));
        }
        for (int k = 0; k < 3; ++k) { g[k].reset(); }
        tr.ev(Rec().str("op", "last").raw("calls", drain_calls()).num("cp", copies).raw("mem", mem().drain()));
    }
    tr.ev(Rec().str("op", "end").raw("mem", mem().drain()));
}
static Reg r1("sentry", run_sentry);

// ---------------------------------------------------------------- unique functions
using U = itlib::ufunction<int(int)>;
struct F0 { Tracked t; F0(int i, int v) : t(i, v) {} int operator()(int x) { t.ev(4); ++t.n; called(t.id, x); if (x < 0) throw Boom(); return t.v * 10000 + t.n * 100 + x; } };
struct F2 : F0 { std::unique_ptr<int> p; F2(int i, int v) : F0(i, v), p(new int(v)) {} int operator()(int x) { return p && *p == t.v ? F0::operator()(x) : -1; } };
struct F3 : F0 { char pad[256]; F3(int i, int v) : F0(i, v) { memset(pad, v & 127, sizeof pad); } int operator()(int x) { for (char c : pad) if (c != char(t.v & 127)) return -2; return F0::operator()(x); } };
struct alignas(64) F4 : F0 { F4(int i, int v) : F0(i, v) {} int operator()(int x) { return uintptr_t(this) % 64 ? -3 : F0::operator()(x); } };
struct FL { Tracked t; FL(int i, int v) : t(i, v) {} long operator()(long x) { t.ev(4); ++t.n; called(t.id, int(x)); if (x < 0) throw Boom(); return t.v * 10000 + t.n * 100 + x; } };
struct FC { Tracked t; FC(int i, int v) : t(i, v) {} int operator()(int x) const { t.ev(4); called(t.id, x); if (x < 0) throw Boom(); return t.v * 10000 + 100 + x; } };
static int g0(int x) { called(90, x); if (x < 0) throw Boom(); return x; }
static long g1(short x) { called(91, x); if (x < 0) throw Boom(); return x; }
template <class Do> static void with(int kind, int id, int v, F0& ext, Do& d) { // gives a callable of the kind
    switch (kind) {
        case 0: d(F0(id, v)); break;
        case 1: { F0 f(id, v); d.lv(f); break; }
        case 2: d(F2(id, v)); break;
        case 3: d(F3(id, v)); break;
        case 4: d(F4(id, v)); break;
        case 5: { std::unique_ptr<F0> p(new F0(id, v)); struct L { std::unique_ptr<F0> p; int operator()(int x) { return (*p)(x); } }; d(L{std::move(p)}); break; }
        case 6: d(&g0); break;
        case 7: { int (*p)(int) = nullptr; d(p); break; }
        case 8: d(&g1); break;
        case 9: { auto p = std::make_shared<F0>(id, v); std::function<int(int)> f([p](int x) { return (*p)(x); }); p.reset(); d(std::move(f)); break; }
        case 10: d.lv(g0); break;
        case 11: d(FL(id, v)); break;
        case 12: { itlib::ufunction<long(long)> u((FL(id, v))); d(std::move(u)); break; }
        case 13: d(nullptr); break;
        case 14: d(std::ref(ext)); break;
        case 15: { const FC f(id, v); d.lv(f); break; }
        default: { FC f(id, v); d([f](int x) mutable { return f(x); }); }
    }
}
struct Construct { void* at; U* r; template <class F> void operator()(F&& f) { r = new (at) U(std::forward<F>(f)); } template <class F> void lv(F& f) { r = new (at) U(f); } };
struct Assign { U* r; bool same; template <class F> void operator()(F&& f) { same = &(*r = std::forward<F>(f)) == r; } template <class F> void lv(F& f) { same = &(*r = f) == r; } };
struct Res { std::unique_ptr<int> operator()(std::unique_ptr<int> p) { ++*p; return p; } };
static void run_ufn(const Script& sc) {
    mem().reset(); copies = 0; calls.clear(); Watch::clear();
    Trace tr(sc.id, Rec().b("mv", true));
    long leak = 0;
    {
        F0 ext(80, 8); mem().drain();
        std::aligned_storage<sizeof(U), alignof(U)>::type st[3]; U* u[3];
        { Watch w; for (int k = 0; k < 3; ++k) u[k] = new (&st[k]) U(); }
        int serial = 0;
        for (auto& op : sc.ops) {
            Rec r; int k = int(op.arg(0)) % 3, j = int(op.arg(1)) % 3; copies = 0;
            r.str("op", op.name).num("k", k + 1).num("j", j + 1);
            std::string ex; long ret = 0; bool same = true;
            const std::string& o = op.name;
            if (o == "c" || o == "a") {
                int kind = int(op.arg(1)); r.num("q", kind).num("v", op.arg(2)); int id = ++serial; r.num("id", id);
                Watch w;
                if (o == "c") { u[k]->~U(); Construct c{&st[k], nullptr}; with(kind, id, int(op.arg(2)), ext, c); u[k] = c.r; }
                else { Assign a{u[k], true}; with(kind, id, int(op.arg(2)), ext, a); same = a.same; }
            } else if (o == "c_def") { Watch w; u[k]->~U(); u[k] = new (&st[k]) U(); }
            else if (o == "c_null") { Watch w; u[k]->~U(); u[k] = new (&st[k]) U(nullptr); }
            else if (o == "a_null") { Watch w; same = &(*u[k] = nullptr) == u[k]; }
            else if (o == "c_move") { if (k != j) { Watch w; u[k]->~U(); u[k] = new (&st[k]) U(std::move(*u[j])); } }
            else if (o == "a_move") { Watch w; U& src = *u[j]; same = &(*u[k] = std::move(src)) == u[k]; }
            else if (o == "swap") { Watch w; std::swap(*u[k], *u[j]); }
            else if (o == "call") { const U& c = *u[k]; r.num("x", op.arg(1)); ex = guarded([&] { try { ret = op.arg(2) ? c(int(op.arg(1))) : (*u[k])(int(op.arg(1))); } catch (const std::bad_function_call&) { ex = "badcall"; } }) + ex; }
            else if (o == "sig") { // other signatures
                int v = int(op.arg(1)); r.num("v", v); std::vector<long> got;
                { itlib::ufunction<std::unique_ptr<int>(std::unique_ptr<int>)> f((Res())); std::unique_ptr<int> p(new int(v)); int* raw = p.get(); p = f(std::move(p)); got.push_back(p.get() == raw ? *p : -1); }
                { int e = v; itlib::ufunction<int&(int&)> f([](int& y) -> int& { ++y; return y; }); got.push_back(&f(e) == &e ? e : -1); }
                { Tracked a(1, v); int c0 = copies; itlib::ufunction<int(Tracked)> f([](Tracked t) { return t.v; }); got.push_back(f(std::move(a))); got.push_back(copies - c0); }
                { Tracked a(1, v); int c0 = copies; itlib::ufunction<int(const Tracked&, Tracked&&)> f([](const Tracked& t, Tracked&& y) { Tracked z(std::move(y)); return t.v + z.v; }); Tracked b(2, v); got.push_back(f(a, std::move(b))); got.push_back(copies - c0); got.push_back(b.gone); }
                { int n = 0; itlib::ufunction<void()> f([&n, v] { n += v; return n; }); f(); f(); got.push_back(n); }
                { itlib::ufunction<void()> f; f = itlib::ufunction<void()>([] {}); got.push_back(bool(f)); f = nullptr; got.push_back(bool(f)); }
                r.arr("got", got);
            }
            std::string b = "["; for (int q = 0; q < 3; ++q) b += (q ? "," : "") + std::to_string(bool(*u[q]) ? 1 : 0);
            tr.ev(r.b("same", same).str("ex", ex).num("ret", ret).num("cp", copies).raw("b", b + "]").raw("calls", drain_calls()).raw("mem", mem().drain()));
        }
        for (int k = 0; k < 3; ++k) u[k]->~U();
        leak = Watch::count();
    }
    tr.ev(Rec().str("op", "end").num("leak", leak).raw("calls", drain_calls()).raw("mem", mem().drain()));
}
static Reg r2("ufn", run_ufn);
int main(int c, char** v) { return drive(c, v); }
