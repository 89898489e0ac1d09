// Driver for strong_try_rec_mutex.
#include "conc.hpp"
#include <itlib/mutex.hpp>
using namespace conc;
using M = itlib::strong_try_rec_mutex;
struct World {
    M m; fib::Var data; long value = 0; long held[6] = {};
    void setup(const Op&) {}
    void perform(int t, const Op& op) {
        const std::string& n = op.name;
        if (n == "try") { inv("try"); bool ok = m.try_lock(); if (ok) ++held[t]; ret_emit(std::to_string(int(ok))); }
        else if (n == "unlock") { if (!held[t]) return; inv("unlock"); --held[t]; m.unlock(); ret_emit("0"); }
        else if (n == "use") { if (!held[t]) return; data.read(); long v = value; data.write(); value = v + 1; Rec r; r.str("op", "use").num("t", t).num("v", value); S().emit(r); }
        else if (n == "many") { long k = op.arg(1), ok = 0; if (!held[t]) return; for (long i = 0; i < k; ++i) ok += m.try_lock(); held[t] += ok; Rec r; r.str("op", "many").num("t", t).num("n", k).num("ok", ok); S().emit(r); }
        else if (n == "less") { long k = std::min(op.arg(1), held[t] - 1); if (k < 0) return; for (long i = 0; i < k; ++i) m.unlock(); held[t] -= k; Rec r; r.str("op", "less").num("t", t).num("n", k); S().emit(r); }
        else if (n == "wrap") { // through the standard guards
            inv("try"); std::unique_lock<M> l(m, std::try_to_lock); bool ok = l.owns_lock(); ret_emit(std::to_string(int(ok))); if (ok) ++held[t];
            if (ok) { data.read(); long v = value; data.write(); value = v + 1; Rec r; r.str("op", "use").num("t", t).num("v", value); S().emit(r); inv("unlock"); l.unlock(); --held[t]; ret_emit("0"); }
        }
    }
    void leave(int t) { while (held[t]) { inv("unlock"); --held[t]; m.unlock(); ret_emit("0"); } }
    void finish() {}
};
static void go(const Script& s) { Rec cfg; cfg.str("name", s.cfg); conc::run<World>(s, [] { return std::unique_ptr<World>(new World); }, cfg); }
#ifdef REAL
static void stress(const Script& s) {
    Rec cfg; cfg.str("name", s.cfg).num("nt", 0).b("micro", false); Trace tr(s.id, cfg);
    Rec b; b.str("op", "Start"); tr.ev(b);
    long nt = s.ops[0].arg(0), n = s.ops[0].arg(1), want = 0, in = 0, over = 0; long value = 0; M m; std::vector<std::thread> th; std::atomic<int> ready(0), inside(0); std::vector<long> done(size_t(nt), 0), bad(size_t(nt), 0);
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        ++ready; while (ready.load() < nt) std::this_thread::yield();
        unsigned r = unsigned(s.ops[0].arg(2)) * 31 + unsigned(t) * 7 + 1;
        for (long i = 0; i < n; ++i) {
            r = r * 1664525u + 1013904223u; int d = 1 + int(r >> 30), got = 0;
            for (int k = 0; k < d; ++k) { if (m.try_lock()) { ++got; ++value; ++done[size_t(t)]; } else if (got) ++bad[size_t(t)]; }
            if (got) { if (inside.exchange(t + 1, std::memory_order_relaxed) != 0) ++bad[size_t(t)]; for (int k = 1; k < got; ++k) m.unlock(); ++value; ++done[size_t(t)]; if (inside.exchange(0, std::memory_order_relaxed) != t + 1) ++bad[size_t(t)]; m.unlock(); }
        }
    });
    for (auto& x : th) x.join();
    for (auto x : done) want += x; for (auto x : bad) over += x; (void)in;
    bool free_ = m.try_lock(); if (free_) m.unlock();
    Rec r; r.str("op", "stress").num("want", want).num("value", value).num("bad", over).b("free", free_); tr.ev(r);
}
static Reg r1("seq", go); static Reg r2("stress", stress);
#else
static Reg r1("fib", go);
#endif
int main(int c, char** v) { return drive(c, v, 30); }
