// Driver for data_mutex: the mutex is instrumented, its locking can be made to throw.
#include "conc.hpp"
#include <itlib/data_mutex.hpp>
using namespace conc;
static const char* KN[] = {"U", "CU", "TU", "TCU", "S", "TS"};
static bool fuse[6];
struct LM { // a shared mutex
    fib::Var dummy; int own = 0; int sh[6] = {};
#ifndef REAL
    int loc = S().newloc();
    void sync(bool acq) { fib::micro("au", loc, acq ? std::memory_order_acquire : std::memory_order_release); S().changed(loc); }
    void pt() { S().point(); S().other(); }
    void wait() { S().block(loc); }
#else
    void sync(bool) {} void pt() {} void wait() { fprintf(stderr, "blocked for ever\n"); abort(); }
#endif
    LM() = default; LM(const LM&) = delete;
    int others() const { int n = 0; for (int i = 0; i < 6; ++i) n += sh[i]; return n; }
    bool free_x() const { return !own && !others(); }
    void say(const char* c, const char* res) { Rec r; r.str("op", "mx").num("t", fib::self()).str("c", c).str("res", res); S().emit(r); }
    bool boom(const char* c) { if (!fuse[fib::self()]) return false; fuse[fib::self()] = false; say(c, "throw"); return true; }
    void lock() { pt(); if (boom("lock")) throw Boom(); while (!free_x()) wait(); own = fib::self(); sync(true); say("lock", "ok"); }
    bool try_lock() { pt(); if (boom("try_lock")) throw Boom(); if (!free_x()) { say("try_lock", "no"); return false; } own = fib::self(); sync(true); say("try_lock", "ok"); return true; }
    void lock_shared() { pt(); if (boom("lock_shared")) throw Boom(); while (own) wait(); ++sh[fib::self()]; sync(true); say("lock_shared", "ok"); }
    bool try_lock_shared() { pt(); if (boom("try_lock_shared")) throw Boom(); if (own) { say("try_lock_shared", "no"); return false; } ++sh[fib::self()]; sync(true); say("try_lock_shared", "ok"); return true; }
    void unlock() { pt(); say("unlock", "ok"); sync(false); own = 0; }
    void unlock_shared() { pt(); say("unlock_shared", "ok"); sync(false); --sh[fib::self()]; }
};
struct D {
    fib::Var v; long value; D(long a, std::unique_ptr<long> b, long& c) : value(a + *b + c) { ++c; } explicit D(long a) : value(a) {} D() : value(0) {}
    D(const D&) = delete;
};
using DM = itlib::data_mutex<D, LM>;
template <class X> using rem = typename std::remove_reference<X>::type;
template <class G> struct Info { using R = rem<decltype(*std::declval<G&>())>; using P = rem<decltype(*std::declval<G&>().operator->())>; static constexpr bool mut = !std::is_const<R>::value || !std::is_const<P>::value, exact = std::is_same<typename std::remove_const<R>::type, D>::value; };
using GU = decltype(std::declval<DM&>().unique_lock()); using GTU = decltype(std::declval<DM&>().try_unique_lock());
using GCU = decltype(std::declval<const DM&>().unique_lock()); using GTCU = decltype(std::declval<const DM&>().try_unique_lock());
using GS = decltype(std::declval<const DM&>().shared_lock()); using GTS = decltype(std::declval<const DM&>().try_shared_lock());
using GS2 = decltype(std::declval<DM&>().shared_lock()); using GTS2 = decltype(std::declval<DM&>().try_shared_lock());
template <class X> auto reach_data(int) -> decltype((void)std::declval<X&>().m_data, std::true_type()); template <class X> std::false_type reach_data(...);
template <class X> auto reach_mutex(int) -> decltype((void)std::declval<X&>().m_mutex, std::true_type()); template <class X> std::false_type reach_mutex(...);
template <class X> constexpr bool bare() { return decltype(reach_data<X>(0))::value || decltype(reach_mutex<X>(0))::value; }
template <class X> constexpr bool copyable() { return std::is_copy_constructible<X>::value || std::is_copy_assignable<X>::value; }
template <class X> std::string right() { return !Info<X>::exact ? "other" : Info<X>::mut ? "mut" : "const"; }

struct Guard { const char* k; virtual ~Guard() {} virtual const D* get() = 0; virtual D* mut() { return nullptr; } virtual bool tells() = 0; virtual Guard* moved() = 0; };
template <class G> bool told(const G& g, bool held, decltype((void)bool(std::declval<const G&>()), 0)) { return bool(g) == held; }
template <class G> bool told(const G&, bool, long) { return true; }
template <class G> D* mutp(D* p) { return p; }
template <class G> D* mutp(const D*) { return nullptr; }
template <class G> struct Box : Guard {
    G g; template <class F> explicit Box(F&& f) : g(f()) {} explicit Box(G&& o) : g(std::move(o)) {}
    const D* get() override { return g.operator->(); }
    D* mut() override { return mutp<G>(g.operator->()); }
    bool tells() override { bool h = get() != nullptr; const G& c = g; return told(g, h, 0) && c.operator->() == get() && (!h || (&*g == get() && &*c == get())); }
    Guard* moved() override { auto r = new Box(std::move(g)); r->k = k; return r; }
};
template <class F> Guard* boxed(F f, const char* k) { auto r = new Box<decltype(f())>(f); r->k = k; return r; }

struct World {
    std::unique_ptr<DM> dm; std::unique_ptr<Guard> g[6][3]; long counter = 5;
    World() { for (auto& f : fuse) f = false; Rec r; r.str("op", "rights");
        Rec q; q.str("U", right<GU>()).str("CU", right<GCU>()).str("TU", right<GTU>()).str("TCU", right<GTCU>()).str("S", right<GS>()).str("TS", right<GTS>());
        r.raw("guards", q.obj()).b("copyable", copyable<GU>() || copyable<GCU>() || copyable<GTU>() || copyable<GTCU>() || copyable<GS>() || copyable<GTS>() || copyable<DM>() || std::is_move_constructible<DM>::value)
         .b("movable", std::is_move_constructible<GU>::value && std::is_move_constructible<GTU>::value && std::is_move_constructible<GCU>::value && std::is_move_constructible<GTCU>::value && std::is_move_constructible<GS>::value && std::is_move_constructible<GTS>::value)
         .b("bare", bare<DM>() || bare<GU>() || bare<GS>() || bare<GTU>()).b("constmut", Info<GCU>::mut || Info<GTCU>::mut || Info<GS2>::mut || Info<GTS2>::mut); S().emit(r); }
    void setup(const Op& op) {
        if (op.name != "make" || dm) return;
        long k = op.arg(0) % 3, a = op.arg(1), want;
        if (k == 0) { dm.reset(new DM); want = 0; } else if (k == 1) { dm.reset(new DM(a)); want = a; } else { dm.reset(new DM(a, std::unique_ptr<long>(new long(100)), counter)); want = a + 105 + (counter == 6 ? 0 : 1000); }
        const D* p = nullptr; long got; { auto s = S().micro; (void)s; got = peek(); } (void)p;
        Rec r; r.str("op", "made").num("got", got).num("want", want); S().emit(r);
    }
    long peek() { // before any thread runs; through a guard, unrecorded
#ifdef REAL
        S().quiet = true; long v = (*dm->unique_lock()).value; S().quiet = false; return v;
#else
        auto n = S().log.size(); bool m = S().micro; S().micro = false; long v = (*dm->unique_lock()).value; S().micro = m; S().log.resize(n); return v;
#endif
    }
    int slot(int t, long s) const { return (t - 1) * 3 + int(s); }
    void invoke(const char* f, int t, const char* k, int a, int b) { Rec r; r.str("op", "inv").num("t", t).str("f", f).str("k", k).num("g", a).num("h", b); S().emit(r); }
    void done(int t, bool holds, const std::string& exc) { Rec r; r.str("op", "ret").num("t", t).b("holds", holds).str("exc", exc); S().emit(r); }
    int holding(int t) { int r = 0; for (auto& x : g[t]) if (x && x->get()) r |= (x->k[0] == 'S' || x->k[1] == 'S') ? 1 : 2; return r; }
    Guard* make(int k) { const DM& c = *dm; DM& m = *dm;
        switch (k) { case 0: return boxed([&] { return m.unique_lock(); }, KN[0]); case 1: return boxed([&] { return c.unique_lock(); }, KN[1]); case 2: return boxed([&] { return m.try_unique_lock(); }, KN[2]);
            case 3: return boxed([&] { return c.try_unique_lock(); }, KN[3]); case 4: return boxed([&] { return c.shared_lock(); }, KN[4]); default: return boxed([&] { return m.try_shared_lock(); }, KN[5]); } }
    void access(int t, int s, bool write) {
        Guard& x = *g[t][s];
        if (write) { D* p = x.mut(); if (!p) return; p->v.read(); long old = p->value; p->v.write(); p->value = old + t; Rec r; r.str("op", "put").num("t", t).num("g", slot(t, s)).num("old", old).num("v", p->value); S().emit(r); }
        else { const D* p = x.get(); if (!p) return; p->v.read(); Rec r; r.str("op", "get").num("t", t).num("g", slot(t, s)).num("v", p->value); S().emit(r); }
    }
    void has(int t, int s) { Rec r; r.str("op", "has").num("t", t).num("g", slot(t, s)).b("holds", g[t][s]->get() != nullptr).b("tells", g[t][s]->tells()); S().emit(r); }
    void acquire(int t, int s, int k, bool thr) {
        int h = holding(t); // a thread that would wait for itself does not
        if (!thr && (((k == 0 || k == 1) && h) || (k == 4 && h == 2))) return;
        if (S().seq && !thr && ((k == 0 || k == 1 || k == 4) && blocked(k))) return;
        fuse[t] = thr; Guard* n = nullptr; invoke("acq", t, KN[k], slot(t, s), 0);
        std::string e = guarded([&] { n = make(k); }); fuse[t] = false;
        g[t][s].reset(n); done(t, n && n->get(), e); if (n) has(t, s);
    }
    bool blocked(int k) { bool x = false, sh = false; for (int u = 1; u < 6; ++u) { int h = holding(u); x = x || (h & 2); sh = sh || (h & 1); } return x || (k != 4 && sh); }
    void end(int t, int s) { invoke("end", t, "", slot(t, s), 0); std::string e = guarded([&] { g[t][s].reset(); }); done(t, false, e); }
    void perform(int t, const Op& op) {
        if (!dm) return;
        const std::string& n = op.name; int s = int(op.arg(1) % 3), k = int(op.arg(2));
        if (n == "acq") { if (!g[t][s]) acquire(t, s, k % 6, op.arg(3) != 0); }
        else if (n == "end") { if (g[t][s]) end(t, s); }
        else if (n == "mv") { if (!g[t][s] || g[t][k % 3]) return; invoke("move", t, "", slot(t, s), slot(t, k % 3)); std::string e = guarded([&] { g[t][k % 3].reset(g[t][s]->moved()); }); done(t, false, e); has(t, s); has(t, k % 3); }
        else if (n == "put") { if (g[t][s]) access(t, s, true); }
        else if (n == "get") { if (g[t][s]) access(t, s, false); }
        else if (n == "scope") { // a guard of the scope, left by an exception
            int h = holding(t); if (g[t][s] || h || (S().seq && blocked(0))) return;
            guarded([&] { struct Out { World& w; int t, s; ~Out() { if (w.g[t][s]) w.end(t, s); } } o{*this, t, s}; acquire(t, s, k % 6, false); if (g[t][s]) access(t, s, true); throw Boom(); });
        }
        else if (n == "temp") { // a guard that is a temporary
            if (holding(t) || g[t][s] || (S().seq && blocked(0))) return;
            invoke("acq", t, "U", slot(t, s), 0);
            { auto&& x = dm->unique_lock(); done(t, x.operator->() != nullptr, ""); D* p = &*x; p->v.read(); long old = p->value; p->v.write(); p->value = old + 10; Rec r; r.str("op", "put").num("t", t).num("g", slot(t, s)).num("old", old).num("v", p->value); S().emit(r); invoke("end", t, "", slot(t, s), 0); }
            done(t, false, "");
        }
    }
    void leave(int t) { for (int s = 2; s >= 0; --s) if (g[t][s]) end(t, s); }
    void finish() { for (int t = 1; t < 6; ++t) { for (int s = 0; s < 3; ++s) if (g[t][s]) { S().cur = 
#ifdef REAL
        t
#else
        t - 1
#endif
        ; end(t, s); } } S().cur = 
#ifdef REAL
        0;
#else
        -1;
#endif
    }
};
static void go(const Script& s) { Rec cfg; cfg.str("name", s.cfg); conc::run<World>(s, [] { return std::unique_ptr<World>(new World); }, cfg); }
static Reg r1("dm", go);
int main(int c, char** v) { return drive(c, v, 30); }
