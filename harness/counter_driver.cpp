// Driver for atomic_relaxed_counter. Values are recorded byte by byte.
#include "conc.hpp"
#include <itlib/atomic.hpp>
using namespace conc;
template <class I> std::string bytes(I v) { std::string r = "["; auto u = (unsigned long long)v; for (size_t i = 0; i < sizeof(I); ++i) { r += (i ? "," : "") + std::to_string(int(u & 255)); u >>= 8; } return r + "]"; }
template <class I> I value(const Op& op, size_t i) { return I((unsigned long long)op.arg(i) + ((unsigned long long)op.arg(i + 1) << 32)); }
template <class I> struct World {
    using C = itlib::atomic_relaxed_counter<I>;
    std::unique_ptr<C> c[2];
    World() { static_assert(std::is_convertible<const C&, I>::value, "reads as an integer"); c[0].reset(new C(I(0))); c[1].reset(new C(I(0))); }
    static void made(int k, I want, I got) { Rec r; r.str("op", "made").num("c", k + 1).raw("want", bytes(want)).raw("got", bytes(got)); S().emit(r); }
    void setup(const Op& op) { if (op.name == "make") { int k = op.arg(0) & 1; I v = value<I>(op, 1); c[k].reset(new C(v)); made(k, v, c[k]->load()); } }
    void perform(int t, const Op& op) {
        const std::string& n = op.name; int k = op.arg(1) & 1; I v = value<I>(op, 2); C& x = *c[k]; const C& y = x; std::string res;
        Rec i; i.str("op", "inv").num("t", t).str("f", n).num("c", k + 1).num("d", 2 - k).raw("n", bytes(v)); S().emit(i);
        if (n == "load") res = bytes(I(y.load())); else if (n == "conv") { I q = y; res = bytes(q); }
        else if (n == "inc") res = bytes(I(++x)); else if (n == "pinc") res = bytes(I(x++)); else if (n == "dec") res = bytes(I(--x)); else if (n == "pdec") res = bytes(I(x--));
        else if (n == "add") res = bytes(I(x += v)); else if (n == "sub") res = bytes(I(x -= v)); else if (n == "set") res = bytes(I(x = v)); else if (n == "store") { x.store(v); res = "[]"; }
        else if (n == "assign") { const C& o = *c[1 - k]; C& back = (x = o); res = &back == &x ? "[]" : "[-1]"; }
        else if (n == "copy") { C z(y); res = bytes(I(z.load())); }
        ret_emit(res);
    }
    void leave(int) {}
    void finish() {}
    ~World() { Rec r; r.str("op", "final").raw("v", "[" + bytes(I(c[0]->load())) + "," + bytes(I(c[1]->load())) + "]"); S().emit(r); }
};
template <class I> static void go(const Script& s) { Rec cfg; cfg.str("name", s.cfg).num("w", sizeof(I)); conc::run<World<I>>(s, [] { return std::unique_ptr<World<I>>(new World<I>); }, cfg); }
#ifdef REAL
template <class I> static void stress(const Script& s) {
    long nt = s.ops[0].arg(0), n = s.ops[0].arg(1); unsigned seed = unsigned(s.ops[0].arg(2));
    Rec cfg; cfg.str("name", s.cfg).num("nt", 0).b("micro", false).num("w", sizeof(I)); Trace tr(s.id, cfg); Rec b; b.str("op", "Start"); tr.ev(b);
    using U = unsigned long long; itlib::atomic_relaxed_counter<I> c(I(0)), only(I(0)); std::vector<U> part(size_t(nt), 0); std::vector<std::vector<I>> seen{size_t(nt)}; std::vector<std::thread> th; std::atomic<int> ready(0);
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        ++ready; while (ready.load() < nt) std::this_thread::yield();
        unsigned r = seed * 31 + unsigned(t) * 7 + 1; U sum = 0;
        for (long i = 0; i < n; ++i) {
            r = r * 1664525u + 1013904223u; I d = I(r >> 16);
            switch (r >> 28) { case 0: case 1: ++c; sum += 1; break; case 2: case 3: c++; sum += 1; break; case 4: case 5: --c; sum -= 1; break; case 6: c--; sum -= 1; break; case 7: case 8: case 9: c += d; sum += U(d); break; case 10: case 11: c -= d; sum -= U(d); break;
                case 12: seen[size_t(t)].push_back(I(++only)); break; case 13: { seen[size_t(t)].push_back(I(I(only++) + 1)); break; } case 14: { only += I(1); seen[size_t(t)].push_back(I(0)); break; } default: { itlib::atomic_relaxed_counter<I> k(c); sum += U(I(k.load())) - U(I(k.load())); } }
        }
        part[size_t(t)] = sum;
    });
    for (auto& x : th) x.join();
    U sum = 0, cnt = 0; for (auto p : part) sum += p;
    long dup = 0; std::map<I, int> m; for (auto& v : seen) { cnt += v.size(); for (auto x : v) if (x != I(0)) ++m[x]; }
    if (sizeof(I) >= 4) { for (auto& p : m) if (p.second > 1) ++dup; }
    if (I(only.load()) != I(cnt)) ++dup;
    Rec r; r.str("op", "stress").raw("want", bytes(I(sum))).raw("got", bytes(I(c.load()))).num("dup", dup); tr.ev(r);
}
#define T2(n, I) static Reg n##_a(#n, go<I>); static Reg n##_b("stress_" #n, stress<I>);
#else
#define T2(n, I) static Reg n##_a(#n, go<I>);
#endif
T2(i8, signed char) T2(u8, unsigned char) T2(ch, char) T2(i16, short) T2(u16, unsigned short) T2(c16, char16_t) T2(c32, char32_t) T2(i32, int) T2(u32, unsigned) T2(wc, wchar_t) T2(i64, long) T2(u64, unsigned long) T2(ll, long long) T2(ull, unsigned long long)
int main(int c, char** v) { return drive(c, v, 30); }
