// Programs of threads: setup operations, "go,bound,max,random,seed,micro" or "seq", then the operations of the threads.
// World: constructed for every execution; void setup(op); void perform(int t, op); void finish().
#pragma once
#ifdef REAL
#include "real_shim.hpp"
#include <condition_variable>
#include <mutex>
#include <set>
#else
#include "std_shim.hpp"
#endif
namespace conc {
using namespace vh;
using fib::S;
inline void inv(const std::string& f, long a = 0, long b = 0) { Rec x; x.str("op", "inv").num("t", fib::self()).str("f", f).num("a", a).num("b", b); S().emit(x); }
inline Rec ret(const std::string& res) { Rec x; x.str("op", "ret").num("t", fib::self()).raw("res", res); return x; }
inline void ret_emit(const std::string& res) { S().emit(ret(res)); }

template <class World> void run(const Script& s, std::function<std::unique_ptr<World>()> make, Rec cfg) {
    fib::Explore ex{}; std::vector<Op> setup; std::vector<std::vector<std::pair<size_t, Op>>> prog(5); std::vector<int> order; bool conc = false, seq = false; int nt = 0; bool micro = false;
    for (auto& op : s.ops) {
        if (op.name == "go") { conc = true; ex.bound = int(op.arg(0)); ex.max = op.arg(1); ex.rand = op.arg(2); ex.seed = (unsigned long long)op.arg(3); micro = op.arg(4); continue; }
        if (op.name == "seq") { conc = seq = true; continue; }
        if (!conc) { setup.push_back(op); continue; }
        size_t t = size_t(op.arg(0)) % 4; nt = std::max(nt, int(t) + 1); prog[t].push_back({order.size(), op}); order.push_back(int(t));
    }
    cfg.num("nt", nt).b("micro", micro);
    Trace tr(s.id, cfg);
    auto one = [&] {
        S().seq = seq; S().order = order; S().micro = micro;
        std::unique_ptr<World> w = make();
        for (auto& op : setup) w->setup(op);
        { Rec g; g.str("op", "Go"); S().emit(g); }
#ifdef REAL
        { // the operations one after another, each in its own thread
            std::mutex m; std::condition_variable cv; size_t turn = 0; std::vector<std::thread> th;
            for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { for (auto& o : prog[size_t(t)]) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return turn == o.first; }); S().cur = t + 1; w->perform(t + 1, o.second); ++turn; cv.notify_all(); } });
            for (auto& x : th) x.join();
            S().cur = 0;
        }
#else
        for (int t = 0; t < nt; ++t) S().add([&, t] { for (auto& o : prog[size_t(t)]) { S().begin_op(o.first); w->perform(t + 1, o.second); S().end_op(); } w->leave(t + 1); });
        S().run();
        if (S().stuck || S().live) { (void)w.release(); fib::Pool::get().all.clear(); return; }
#endif
        { Rec g; g.str("op", "Join"); S().emit(g); }
        w->finish();
        w.reset();
        { Rec g; g.str("op", "End"); S().emit(g); }
    };
#ifdef REAL
    S().tr = &tr; Rec st; st.str("op", "Start"); tr.ev(st); one();
#else
    S().seq = seq; S().order = order; S().micro = micro;
    fib::explore(tr, ex, one);
#endif
}
}
