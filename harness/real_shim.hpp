// The parts of the fiber scheduler a driver needs when it runs on real threads or one after another in the main thread.
#pragma once
#include "vh.hpp"
#include <atomic>
#include <thread>
namespace fib {
using namespace vh;
struct Sched { Trace* tr = nullptr; bool micro = false, seq = true, stuck = false, live = false, quiet = false; long steps = 0; int cur = 0; std::vector<int> order; void emit(const Rec& r) { if (!quiet) tr->ev(r); } };
inline Sched& S() { static Sched s; return s; }
inline int self() { return S().cur; }
struct Var { mutable long v = 0; void read() const { volatile long x = v; (void)x; } void write() { ++v; } };
struct Explore {  int bound; long max, rand; unsigned long long seed; };
struct Pool { std::vector<std::unique_ptr<int>> all; static Pool& get() { static Pool p; return p; } };
}
