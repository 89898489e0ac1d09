// Driver for atomic_shared_ptr_storage under the fiber scheduler, or with REAL on the real library: whole operations one after another
// and real threads.
#ifdef REAL
#include "real_shim.hpp"
#else
#include "std_shim.hpp"
#define shared_ptr fib_shared_ptr
#endif
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <set>
using namespace vh;
using fib::S;

struct P;
static std::vector<std::unique_ptr<P>> pool;
static void finish(P*);
#ifdef REAL
struct P { int id; int nested; fib::Var data; ~P() { finish(this); } };
#else
struct P { int id; int nested; fib::Var data; };
namespace fib { template <> void dispose<P>(P* x) { finish(x); } }
#endif
using Sp = std::shared_ptr<P>;
using Storage = itlib::atomic_shared_ptr_storage<P>;

struct World {
    std::unique_ptr<Storage> st; std::vector<Sp> reg[4]; int made = 0; long pub[16] = {};
    static World*& cur() { static World* w = nullptr; return w; }
};
// what a reference denotes: the number of the object it owns, and 100 more for the first, 200 for the second other object it may point to
// (900: it points to nothing) instead of the owned one
#ifdef REAL
static std::map<int, std::weak_ptr<P>> owners;
static int owned(const Sp& s) { if (!s.use_count()) return 0; for (auto& o : owners) if (!o.second.owner_before(s) && !s.owner_before(o.second)) return o.first; return -1; }
static Sp own(P* p);
#else
static int owned(const Sp& s) { auto o = static_cast<const int*>(s.fib_owned()); return o ? *o : 0; } // pointees begin with their number
static Sp own(P* p) { return Sp(p); }
#endif
static P* twin(int k) { static P* t[2]; if (!t[k]) { t[k] = new P; t[k]->id = 100 * (k + 1); t[k]->nested = 0; } return t[k]; }
static int denotes(P* p, int o) { if (!p) return o ? 900 + o : 0; if (p->id >= 100) return p->id + o; return p->id == o ? o : -1; }
static int id(const Sp& s, bool quiet = true) { bool m = S().micro; bool seq = S().seq; if (quiet) { S().micro = false; S().seq = true; long st = S().steps; P* p = s.get(); S().steps = st; S().seq = seq; S().micro = m; return denotes(p, owned(s)); } return 0; }
static P* make(int nested) { auto& w = *World::cur();
#ifdef REAL
    P* p = new P;
#else
    pool.emplace_back(new P); P* p = pool.back().get();
#endif
    p->id = ++w.made; p->nested = nested; p->data.write(); return p; }
#ifdef REAL
static Sp own(P* p) { Sp s(p); owners[p->id] = s; return s; }
#endif
static void inv(const char* f, int r, int q, int n, int e = 0) { Rec x; x.str("op", "inv").num("t", fib::self()).str("f", f).num("r", r).num("q", q).num("n", n).num("e", e); S().emit(x); }
static void ret(long res, bool regs = true) {
    Rec x; x.str("op", "ret").num("t", fib::self()).num("res", res); std::string a = "[";
    if (regs) for (auto& s : World::cur()->reg[fib::self()]) a += (a.size() > 1 ? "," : "") + std::to_string(id(s));
    x.raw("regs", a + "]"); S().emit(x);
}
#ifdef REAL
static void stress_finish(P*);
#endif
static void finish(P* p) { // the destructor of a pointee, which may use the storage
#ifdef REAL
    if (S().quiet) return stress_finish(p);
#endif
    p->data.write();
    Rec x; x.str("op", "dtor").num("t", fib::self()).num("p", p->id); S().emit(x);
    auto& w = *World::cur();
    if (!World::cur() || !w.st) return;
    if (p->nested == 1) { inv("nload", -1, -1, 0); Sp s = w.st->load(); ret(id(s), false); { inv("ndrop", -1, -1, 0); s.reset(); ret(0, false); } }
    if (p->nested == 2) { P* n = make(0); inv("nstore", -1, -1, n->id); w.st->store(own(n)); ret(0, false); }
    if (p->nested == 3) { P* n = make(0); inv("nxchg", -1, -1, n->id); { Sp s = w.st->exchange(own(n)); } ret(0, false); }
}
static void perform(int t, const Op& op) {
    auto& w = *World::cur(); auto& st = *w.st; auto& R = w.reg[t]; const std::string& n = op.name; size_t r = size_t(op.arg(1)) % 3, q = size_t(op.arg(2)) % 3; int nest = int(op.arg(3)) & 3; const char* f = n.c_str();
    if (n == "load") { inv(f, int(r), 0, 0); R[r] = st.load(); ret(id(R[r])); }
    else if (n == "store") { inv(f, int(r), 0, 0); st.store(R[r]); ret(0); }
    else if (n == "mstore") { inv(f, int(r), 0, 0); st.store(std::move(R[r])); ret(0); }
    else if (n == "nstore") { P* p = make(nest); inv(f, -1, 0, p->id); st.store(own(p)); ret(0); }
    else if (n == "xchg") { inv(f, int(r), int(q), 0); R[q] = st.exchange(R[r]); ret(id(R[q])); }
    else if (n == "nxchg") { P* p = make(nest); inv(f, -1, int(q), p->id); R[q] = st.exchange(own(p)); ret(id(R[q])); }
    else if (n == "cas") { inv(f, int(r), int(q), 0); bool ok = st.compare_exchange(R[r], R[q]); ret(ok); }
    else if (n == "ncas") { P* p = make(nest); inv(f, int(r), -1, p->id); bool ok = st.compare_exchange(R[r], own(p)); ret(ok); }
    else if (n == "new") { P* p = make(nest); inv(f, int(r), 0, p->id); R[r] = own(p); ret(0); }
    else if (n == "drop") { inv(f, int(r), 0, 0); R[r].reset(); ret(0); }
    else if (n == "dup") { inv(f, int(r), int(q), 0); R[q] = R[r]; ret(0); }
    else if (n == "alias") { int k = int(op.arg(3)) % 3; inv(f, int(r), int(q), 0, k == 2 ? 9 : k + 1); R[q] = Sp(R[r], k == 2 ? nullptr : twin(k)); ret(0); }
    else if (n == "read") { inv(f, int(r), 0, 0); if (R[r] && id(R[r]) < 100) { Sp& x = R[r]; P* p = x.get(); p->data.read(); } ret(0); }
}
static void run(const Script& s) {
    Rec cfg; cfg.str("name", s.cfg);
    fib::Explore ex; std::vector<Op> setup; std::vector<std::vector<std::pair<size_t, Op>>> prog(4); std::vector<int> order; bool conc = false, seq = false; int nt = 0, first = 0; bool micro = false;
    for (auto& op : s.ops) {
        if (op.name == "go") { conc = true; ex.bound = int(op.arg(0)); ex.max = op.arg(1); ex.rand = op.arg(2); ex.seed = (unsigned long long)op.arg(3); micro = op.arg(4); continue; }
        if (op.name == "seq") { conc = seq = true; continue; }
        if (op.name == "init") { first = int(op.arg(0)); continue; }
        if (!conc) { setup.push_back(op); continue; }
        size_t t = size_t(op.arg(0)) % 3; nt = std::max(nt, int(t) + 1); prog[t].push_back({order.size(), op}); order.push_back(int(t));
    }
    cfg.num("nt", nt).b("micro", micro);
    Trace tr(s.id, cfg);
    auto one = [&] {
#ifdef REAL
        owners.clear();
#endif
        World w; World::cur() = &w; S().seq = seq; S().order = order; S().micro = micro;
        for (int t = 0; t < 4; ++t) for (int k = 0; k < 3; ++k) w.reg[t].emplace_back();
        if (first == 0) w.st.reset(new Storage); 
        else { P* p = make(first - 1); inv("init", -1, -1, p->id); w.st.reset(new Storage(own(p))); ret(0, false); }
        for (auto& op : setup) { // registers of the threads prepared by the main thread
            int t = int(op.arg(0)) % 3 + 1; size_t r = size_t(op.arg(1)) % 3, q = size_t(op.arg(2)) % 3; Rec x; 
            if (op.name == "sload") { w.reg[t][r] = w.st->load(); }
            if (op.name == "snew") { w.reg[t][r] = own(make(int(op.arg(3)) & 3)); }
            if (op.name == "scopy") { w.reg[t][r] = w.reg[1][q]; }
            if (op.name == "salias") { w.reg[t][r] = Sp(w.reg[t][q], twin(int(op.arg(3)) & 1)); }
            x.str("op", "set").num("u", t).num("r", long(r)).num("p", id(w.reg[t][r])); S().emit(x);
        }
        { Rec g; g.str("op", "Go"); S().emit(g); }
#ifdef REAL
        { std::vector<size_t> at(4); for (int t : order) { S().cur = t + 1; perform(t + 1, prog[size_t(t)][at[size_t(t)]++].second); } S().cur = 0; }
#else
        for (int t = 0; t < nt; ++t) S().add([&, t] { for (auto& o : prog[size_t(t)]) { S().begin_op(o.first); perform(t + 1, o.second); S().end_op(); } });
        S().run();
        if (S().stuck || S().live) { (void)w.st.release(); for (auto& v : w.reg) { auto* leak = new std::vector<Sp>; leak->swap(v); } for (auto& p : pool) (void)p.release(); pool.clear(); for (auto& c : fib::Pool::get().all) (void)c.release(); fib::Pool::get().all.clear(); World::cur() = nullptr; return; }
#endif
        { Rec g; g.str("op", "Join"); S().emit(g); }
        for (int t = 1; t < 4; ++t) for (int k = 0; k < 3; ++k) { Rec x; x.str("op", "clear").num("u", t).num("r", k); S().emit(x); w.reg[t][size_t(k)].reset(); }
        { Rec x; x.str("op", "gone"); S().emit(x); auto h = std::move(w.st); w.st.reset(); h.reset(); }
        { Rec g; g.str("op", "End").num("made", w.made); S().emit(g); }
        World::cur() = nullptr;
        for (auto& v : w.reg) v.clear();
        pool.clear(); fib::Pool::get().all.clear();
    };
    S().seq = seq; S().order = order; S().micro = micro;
#ifdef REAL
    S().tr = &tr; Rec st; st.str("op", "Start"); tr.ev(st); one();
#else
    fib::explore(tr, ex, one);
#endif
}
#ifdef REAL
// real threads: the references of every pointee are accounted for
static std::atomic<int> died[1 << 18], bads; static Storage* stressed;
static void stress_finish(P* p) {
    died[p->id].fetch_add(1, std::memory_order_relaxed); if (p->data.v != p->id * 3L) bads.fetch_add(1, std::memory_order_relaxed); p->data.v = -1;
    if (p->nested == 1 && stressed) { Sp s = stressed->load(); }
}
static void stress(const Script& s) {
    Rec cfg; cfg.str("name", s.cfg).num("nt", 0).b("micro", false); Trace tr(s.id, cfg);
    Rec b; b.str("op", "Start"); tr.ev(b);
    long nt = s.ops[0].arg(0), n = s.ops[0].arg(1); unsigned seed = unsigned(s.ops[0].arg(2));
    S().quiet = true; for (auto& d : died) d = 0; bads = 0;
    std::vector<std::vector<int>> out(static_cast<size_t>(nt)); std::vector<long> bad(size_t(nt), 0), stale(size_t(nt), 0), in(size_t(nt), 0), mk_(size_t(nt), 0);
    Storage* st = new Storage; stressed = st; std::atomic<int> ready(0);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        unsigned r = seed * 77 + unsigned(t) * 1313 + 1; Sp mine, seen; int k = 0;
        auto mk = [&](int nest) { P* p = new P; p->id = t * int(n) + ++k; p->nested = nest; p->data.v = p->id * 3L; return Sp(p); };
        auto look = [&](const Sp& q) { if (q) { if (q->data.v != q->id * 3L) ++bad[size_t(t)]; if (died[q->id].load(std::memory_order_relaxed)) ++stale[size_t(t)]; } };
        ++ready; while (ready.load() < nt) std::this_thread::yield();
        for (long i = 0; i < n; ++i) {
            r = r * 1664525u + 1013904223u; 
            switch ((r >> 16) % 6) {
            case 0: case 1: seen = st->load(); look(seen); break;
            case 2: { Sp q = st->exchange(mk((r >> 8) & 1)); ++in[size_t(t)]; look(q); if (q) out[size_t(t)].push_back(q->id); mine = q; break; }
            case 3: { Sp e = seen; Sp q = mk(0); if (st->compare_exchange(e, q)) { ++in[size_t(t)]; look(e); if (e) out[size_t(t)].push_back(e->id); } else { look(e); if (e == seen && e) ++bad[size_t(t)]; } break; }
            case 4: { Sp e = st->load(); look(e); Sp q = mk((r >> 9) & 1); if (st->compare_exchange(e, q)) { ++in[size_t(t)]; if (e) out[size_t(t)].push_back(e->id); } look(e); break; }
            default: seen.reset(); mine.reset();
            }
        }
        mk_[size_t(t)] = k;
    });
    for (auto& x : th) x.join();
    long end = 0; { Sp q = st->load(); if (q) end = 1; }
    stressed = nullptr; delete st;
    long made = 0, dead = 0, twice = 0, dup = 0, ins = 0, outs = 0, bd = bads, sl = 0; std::set<int> u;
    for (auto& v : out) for (int i : v) { ++outs; if (!u.insert(i).second) ++dup; }
    for (auto x : in) ins += x; for (auto x : bad) bd += x; for (auto x : stale) sl += x;
    for (auto& d : died) { if (d) ++dead; if (d > 1) ++twice; }
    for (long x : mk_) made += x;
    // every pointee put in came out once, but for the last
    Rec r; r.str("op", "stress").num("made", made).num("died", dead).num("twice", twice).num("dup", dup).num("lost", ins - outs - end).num("bad", bd).num("stale", sl); tr.ev(r);
    S().quiet = false;
}
static Reg r1("seq", run); static Reg r2("stress", stress);
#else
static Reg r1("fib17", run);
#endif
int main(int c, char** v) { return drive(c, v, 30); }
