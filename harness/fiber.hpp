// A deterministic scheduler of fibers standing for threads: every access to an instrumented object is a point at which it may switch.
// Executions of a small program are enumerated depth first up to a number of preemptions, or drawn at random, and recorded.
#pragma once
#include "vh.hpp"
#include <atomic>
#include <set>
#include <ucontext.h>

namespace fib {
using namespace vh;

struct Fiber { ucontext_t ctx; std::vector<char> stack; std::function<void()> body; bool done = false; int wait = -1; long waitver = 0; bool soft = false; std::string last; int rep = 0; };

struct Sched {
    std::vector<std::unique_ptr<Fiber>> f; ucontext_t main; int cur = -1; long steps = 0; int wakes = 0; bool stuck = false, live = false; int preempt = 0;
    // exploration
    bool random = false; int bound = 2; unsigned long long rnd = 1; double pswitch = 0.3; std::vector<std::pair<int, int>> stack; size_t pos = 0;
    // recording
    std::vector<std::string> log; bool micro = false; int nloc = 0; std::vector<long> ver; int spurious = 0;
    // sequential mode: operations in the order of the script
    bool seq = false; std::vector<int> order; size_t turn = 0;
    static Sched& get() { static Sched s; return s; }

    unsigned long long next() { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return rnd; }
    int choose(int n) { // one of n, enumerated or random
        if (n <= 1) return 0;
        if (random) return int(next() % unsigned(n));
        if (pos == stack.size()) stack.push_back({0, n});
        if (stack[pos].second != n) { fprintf(stderr, "exploration is not deterministic\n"); _exit(4); }
        return stack[pos++].first;
    }
    bool advance() { // next execution of the enumeration
        while (!stack.empty() && stack.back().first + 1 >= stack.back().second) stack.pop_back();
        if (stack.empty()) return false;
        ++stack.back().first; return true;
    }
    bool runnable(int i) { auto& x = *f[size_t(i)]; return !x.done && (x.wait < 0 || ver[size_t(x.wait)] != x.waitver) && (!seq || (turn < order.size() ? order[turn] == i : true)); }
    static void enter() { auto& s = get(); int me = s.cur; s.f[size_t(me)]->body(); s.f[size_t(me)]->done = true; s.leave(); }
    void go(int i) { int me = cur; if (i == me) return; cur = i; f[size_t(i)]->wait = -1; swapcontext(me < 0 ? &main : &f[size_t(me)]->ctx, i < 0 ? &main : &f[size_t(i)]->ctx); }
    void pick(bool mine) { // mine: the current fiber may go on
        if (++steps > 20000) { live = true; abandon(); }
        std::vector<int> o;
        if (mine) o.push_back(cur);
        for (int i = 0; i < int(f.size()); ++i) if (i != cur && runnable(i)) o.push_back(i);
        if (o.empty()) {
            // those that only seem to wait (the same observation again and again) may go on for a while before it counts as waiting for ever
            if (wakes < 200) for (size_t k = 0; k < f.size(); ++k) { size_t i = (size_t(wakes) + k) % f.size(); if (!f[i]->done && f[i]->wait >= 0 && f[i]->soft && (!seq || turn >= order.size() || order[turn] == int(i))) { ++wakes; if (int(i) != cur) go(int(i)); else f[i]->wait = -1; return; } }
            bool all = true; for (auto& x : f) if (!x->done) all = false;
            if (!all) stuck = true;
            abandon(); return;
        }
        int k = 0;
        if (mine) {
            if (random) { if (o.size() > 1 && double(next() % 1000) < pswitch * 1000) k = 1 + int(next() % (o.size() - 1)); }
            else if (preempt < bound) { k = choose(int(o.size())); if (k) ++preempt; }
        } else k = choose(int(o.size()));
        int t = o[size_t(k)];
        if (t != cur) go(t); else f[size_t(cur)]->wait = -1;
    }
    void abandon() { int me = cur; cur = -1; swapcontext(&f[size_t(me)]->ctx, &main); }
    void leave() { pick(false); }
    void point() { if (cur >= 0 && !seq) pick(true); else if (cur >= 0 && ++steps > 20000) { live = true; abandon(); } }
    void block(int loc, bool soft = false) { if (cur < 0) { fprintf(stderr, "main blocked\n"); stuck = true; throw Boom(); } f[size_t(cur)]->soft = soft; f[size_t(cur)]->wait = loc; f[size_t(cur)]->waitver = ver[size_t(loc)]; pick(false); }
    void changed(int loc) { ++ver[size_t(loc)]; }
    int newloc() { ver.push_back(0); return nloc++; }
    // the same observation of a location again and again without anything in between is waiting for it to change
    void observe(int loc, const std::string& what) {
        if (cur < 0) return;
        auto& x = *f[size_t(cur)]; std::string k = std::to_string(loc) + what;
        if (x.last == k) { if (++x.rep >= 2) { block(loc, true); f[size_t(cur)]->rep = 0; } } else { x.last = k; x.rep = 0; }
    }
    void other() { if (cur >= 0) f[size_t(cur)]->last.clear(); }
    void begin_op(size_t g) { if (seq) { (void)g; while (turn < order.size() && order[turn] != cur) pick(false); } else point(); other(); }
    void end_op() { if (seq) { ++turn; } }
    void reset() { f.clear(); cur = -1; steps = 0; wakes = 0; stuck = live = false; preempt = 0; pos = 0; log.clear(); nloc = 0; ver.clear(); turn = 0; spurious = 0; }
    void add(std::function<void()> b) {
        std::unique_ptr<Fiber> x(new Fiber); x->body = std::move(b); x->stack.resize(256 * 1024); getcontext(&x->ctx);
        x->ctx.uc_stack.ss_sp = x->stack.data(); x->ctx.uc_stack.ss_size = x->stack.size(); x->ctx.uc_link = nullptr; makecontext(&x->ctx, &Sched::enter, 0); f.push_back(std::move(x));
    }
    void run() { if (f.empty()) return; int k = seq ? order.empty() ? 0 : order[0] : choose(int(f.size())); go(k); }
    void emit(const Rec& r) { log.push_back(r.obj()); }
};
inline Sched& S() { return Sched::get(); }
inline int self() { return S().cur + 1; }       // 0: main
inline void micro(const char* k, int x, std::memory_order o = std::memory_order_relaxed) {
    if (!S().micro) return;
    static const char* names[] = {"rlx", "acq", "acq", "rel", "ar", "ar"};
    Rec r; r.str("op", "m").num("t", self()).str("k", k).num("x", x).str("o", names[int(o) & 7 ? std::min(int(o), 5) : 0]); S().emit(r);
}
// a plain variable whose reads and writes are recorded
struct Var {
    int loc; Var() : loc(S().newloc()) {}
    void read() const { S().point(); S().other(); micro("r", loc); }
    void write() const { S().point(); S().other(); micro("w", loc); }
};

// runs body(first) for every execution wanted and writes each different one once
struct Explore { int bound = 2; long max = 2000; long rand = 0; unsigned long long seed = 1; };
inline void explore(Trace& t, const Explore& e, const std::function<void()>& one) {
    auto& s = S(); std::set<size_t> seen; long n = 0;
    auto emit = [&] {
        std::string all; for (auto& x : s.log) all += x;
        if (!seen.insert(std::hash<std::string>()(all)).second) return;
        Rec r; r.str("op", "Start"); t.ev(r);
        for (auto& x : s.log) { Rec q; q.s = x.substr(1, x.size() - 2); t.ev(q); }
        if (s.stuck || s.live) { Rec q; q.str("op", s.stuck ? "Deadlock" : "Livelock"); t.ev(q); }
    };
    s.stack.clear(); s.random = false; s.bound = e.bound;
    if (e.max > 0) do { s.reset(); one(); emit(); if (s.stuck || s.live) return; } while (++n < e.max && !s.seq && s.advance());
    s.random = true; s.rnd = e.seed * 0x9E3779B97F4A7C15ull + 1;
    for (long k = 0; k < e.rand && !s.seq; ++k) { s.pswitch = (k % 3) == 0 ? 0.5 : (k % 3) == 1 ? 0.15 : 0.05; s.reset(); one(); emit(); if (s.stuck || s.live) return; }
    s.random = false;
}
}
