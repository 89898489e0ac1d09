// Driver for expected over combinations of value and error types.
#include "vh.hpp"
#include <itlib/expected.hpp>
using namespace vh;
using A = Tr<1>; using M = Tr<3, false>; using B = Tr<2>; using N = Tr<4, false>; using S = std::string; using U = std::unique_ptr<int>;

template <class T> struct K;
template <> struct K<A> { static A mk(int v) { return A(v); } static int get(const A& x) { return x.v; } static constexpr bool cp = true, tr = true; };
template <> struct K<B> { static B mk(int v) { return B(v); } static int get(const B& x) { return x.v; } static constexpr bool cp = true, tr = true; };
template <> struct K<M> { static M mk(int v) { return M(v); } static int get(const M& x) { return x.v; } static constexpr bool cp = false, tr = true; };
template <> struct K<N> { static N mk(int v) { return N(v); } static int get(const N& x) { return x.v; } static constexpr bool cp = false, tr = true; };
template <> struct K<S> { static S mk(int v) { return Val<S>::mk(v); } static int get(const S& x) { return Val<S>::get(x); } static constexpr bool cp = true, tr = false; };
template <> struct K<U> { static U mk(int v) { return Val<U>::mk(v); } static int get(const U& x) { return Val<U>::get(x); } static constexpr bool cp = false, tr = false; };
template <> struct K<int> { static int mk(int v) { return v; } static int get(const int& x) { return x; } static constexpr bool cp = true, tr = false; };
template <> struct K<void> { static constexpr bool cp = true, tr = false; };
template <> struct K<A&> : K<A> {};
template <> struct K<const A&> : K<A> {};

template <class T, class K> struct Giver { int v; mutable int kept; operator T() && { return K::mk(v); } operator T() const & { kept = 1; return K::mk(v); } };
template <class T, class E> struct Run {
    using X = itlib::expected<T, E>; using KT = K<T>; using KE = K<E>;
    static constexpr bool ref = std::is_reference<T>::value, tv = std::is_void<T>::value, ev = std::is_void<E>::value;
    using VT = typename X::value_type;
    alignas(X) unsigned char store[2][sizeof(X)];
    X* m[2]; A* pool;
    int idx(const A* p) { return p >= pool && p < pool + 3 ? int(p - pool) : -9; }
    template <class Q> int val(const Q& q) { if constexpr (ref) return idx(&q); else return KT::get(q); }
    std::string state(int k) {
        const X& x = *m[k]; Rec r; int v = 0, sl = 0;
        if (x.has_value()) {
            if constexpr (!tv) { v = val(x.value()); if constexpr (KT::tr && !ref) sl = x.value().slot(); }
        } else if constexpr (!ev) { v = KE::get(x.error()); if constexpr (KE::tr) sl = x.error().slot(); }
        r.num("h", x.has_value()).num("he", x.has_error()).num("bo", bool(x)).num("v", v).num("sl", sl);
        return r.obj();
    }
    void remake(int o) { if constexpr (ref) new (store[o]) X(itlib::unexpected()); else new (store[o]) X(); }
    void run(const Script& s) {
        mem().reset(); Watch::clear();
        { A p[3] = {A(0), A(0), A(0)}; pool = p; mem().drain();
          std::string live = "["; for (int i = 0; i < 3; ++i) live += (i ? "," : "") + std::to_string(p[i].slot()); live += "]";
          for (int k = 0; k < 2; ++k) remake(k);
          Rec cfg; cfg.str("name", s.cfg).b("ref", ref).b("tv", tv).b("ev", ev).num("bh", !ref).b("tt", KT::tr && !ref).b("te", KE::tr).raw("live", live).raw("mem0", mem().drain()).raw("s0", "[" + state(0) + "," + state(1) + "]");
          Trace t(s.id, cfg);
          for (auto& op : s.ops) { Rec r; r.str("op", op.name); if (step(op, r)) t.ev(r); }
          for (int k = 0; k < 2; ++k) m[k]->~X();
          Rec r; r.str("op", "end").raw("mem", mem().drain()).num("leak", Watch::count()); t.ev(r);
        }
    }
    Run() { for (int k = 0; k < 2; ++k) m[k] = (X*)store[k]; }
    template <class F> void ctor(int o, long fz, F&& f) {
        m[o]->~X();
        try { mem().fuse = fz ? fz - 1 : -1; f((void*)store[o]); mem().fuse = -1; } catch (...) { mem().fuse = -1; remake(o); throw; }
    }
    bool step(const Op& op, Rec& r) { // op,fuse,o,v,mode
        const std::string& n = op.name; long fz = op.arg(0); int o = int(op.arg(1) - 1) & 1, v = int(op.arg(2)) % 3, mode = int(op.arg(3)) & 7;
        if (n == "vor" && !ref) { if (op.arg(3) >= 8) mode = KT::cp ? int(8 + (op.arg(3) & 1)) : 9; else if (!KT::cp) mode = 5; }
        X& a = *m[o]; X& b = *m[1 - o]; const X& ca = a; const X& cb = b;
        r.num("fz", fz).num("o", o + 1).num("v", v).num("md", mode);
        long ret = -1; int src = v; bool done = true; (void)cb; (void)ca;
        auto arm = [&] { mem().fuse = fz ? fz - 1 : -1; };
        struct D { ~D() { mem().fuse = -1; } };
        std::string ex = guarded([&] {
            Watch w; D d;
            if (n == "c_def") { if constexpr (ref) done = false; else ctor(o, fz, [&](void* p) { new (p) X(); }); }
            else if (n == "c_unexp") ctor(o, fz, [&](void* p) { if (mode & 1) new (p) X(itlib::unexpected()); else new (p) X(itlib::unexpected_t<void>{}); });
            else if (n == "c_move") { a.~X(); new (store[o]) X(std::move(b)); }
            else if (n == "a_move") a = std::move(b);
            else if (n == "a_selfm") { X& x = a; a = std::move(x); }
            else if (n == "a_unexp") { arm(); a = itlib::unexpected(); }
            else if (n == "c_val" || n == "a_val") {
                if constexpr (tv) done = false;
                else if constexpr (ref) { if (n == "c_val") { a.~X(); new (store[o]) X(pool[v]); } else a = pool[v]; }
                else { auto x = KT::mk(v); // an rvalue
                    auto fn = [&]() -> X { return std::move(x); };
                    if (n == "c_val") ctor(o, fz, [&](void* p) { if (mode & 1) new (p) X(fn()); else new (p) X(std::move(x)); }); else { arm(); a = std::move(x); } }
            }
            else if (n == "c_err" || n == "a_err") {
                if constexpr (ev) done = false;
                else {
                    auto x = KE::mk(v); struct Src { decltype(x)& x; int& s; ~Src() { s = KE::get(x); } };
                    int md = KE::cp ? mode % 4 : 0;
                    { Src keep{x, src};
                    auto put = [&](auto&& u) { if (n == "c_err") ctor(o, fz, [&](void* p) { new (p) X(std::move(u)); }); else { arm(); a = std::move(u); } };
                    if (md == 0) put(itlib::unexpected(std::move(x)));
                    else if constexpr (KE::cp) {
                        const auto& cx = x;
                        if (md == 1) put(itlib::unexpected(x)); else if (md == 2) put(itlib::unexpected(cx));
                        else if constexpr (KE::tr || std::is_same<E, int>::value) { int i = v; put(itlib::unexpected(i)); if (i != v) src = -9; } // from something an error is made of
                        else put(itlib::unexpected(cx));
                    }
                    mem().fuse = -1; }
                    if (md == 0) src = v;
                }
            }
            else if (n == "c_copy" || n == "a_copy" || n == "a_self" || n == "clear" || n == "emplace") {
                if constexpr (!ev) done = false;
                else if (n == "clear") a.clear();
                else if (n == "emplace") {
                    if constexpr (tv) a.emplace(); else if constexpr (ref) a.emplace(pool[v]);
                    else { auto x = KT::mk(v); arm(); if constexpr (std::is_same<T, A>::value) { if (mode & 1) a.emplace(v); else if (mode & 2) a.emplace(v - 1, 1); else a.emplace(std::move(x)); } else a.emplace(std::move(x)); }
                }
                else if constexpr (KT::cp) {
                    if (n == "c_copy") ctor(o, fz, [&](void* p) { new (p) X(cb); }); else if (n == "a_copy") { arm(); a = cb; } else { arm(); a = ca; }
                } else done = false;
            }
            else if (n == "vor") {
                if constexpr (tv) done = false;
                else if constexpr (ref) { ret = idx(&ca.value_or(pool[v])); }
                else {
                    auto x = KT::mk(v); arm();
                    auto fin = [&](const auto& y) { mem().fuse = -1; ret = KT::get(y); };
                    if (mode >= 8) { // something which only becomes a value, and wants to know if it may be emptied for that
                        Giver<T, KT> g{v, 0}; mem().fuse = -1;
                        if constexpr (KT::cp) { if (mode == 8) { fin(ca.value_or(std::move(g))); if (g.kept) src = -9; } }
                        if (mode == 9) { fin(std::move(a).value_or(std::move(g))); if (g.kept) src = -9; }
                    }
                    else if constexpr (KT::cp) {
                        const auto& cx = x;
                        if (mode == 0) { fin(ca.value_or(std::move(x))); }
                        else if (mode == 1) { fin(ca.value_or(cx)); src = KT::get(x); }
                        else if (mode == 2) { fin(a.value_or(x)); src = KT::get(x); }
                        else if (mode == 3) { fin(std::move(a).value_or(cx)); src = KT::get(x); }
                        else if (mode == 4) { fin(std::move(a).value_or(x)); src = KT::get(x); }
                        else fin(std::move(a).value_or(std::move(x)));
                    } else { mode = 5; fin(std::move(a).value_or(std::move(x))); }
                }
            }
            else if (n == "get" || n == "take" || n == "set") {
                if (a.has_value()) {
                    if constexpr (tv) done = false;
                    else if (n == "get") {
                        auto adr = [&](const auto& y) { ret = val(y); if (&y != &ca.value()) ret = -8; };
                        switch (mode) { case 0: adr(a.value()); break; case 1: adr(ca.value()); break; case 2: adr(*a); break; case 3: adr(*ca); break; case 4: adr(*a.operator->()); break; default: adr(*ca.operator->()); }
                    }
                    else if constexpr (ref) done = false;
                    else if (n == "take") { if (mode & 1) { auto y = std::move(a).value(); ret = KT::get(y); } else { auto y = *std::move(a); ret = KT::get(y); } }
                    else { if (mode == 0) a.value() = KT::mk(v); else if (mode == 1) *a = KT::mk(v); else *a.operator->() = KT::mk(v); }
                } else {
                    if constexpr (ev) done = false;
                    else if (n == "get") { if (mode & 1) ret = KE::get(a.error()); else ret = KE::get(ca.error()); if (&a.error() != &ca.error()) ret = -8; }
                    else if (n == "take") { auto y = std::move(a).error(); ret = KE::get(y); }
                    else a.error() = KE::mk(v);
                }
            }
            else done = false;
        });
        if (!done) { mem().drain(); return false; }
        r.str("ex", ex).num("r", ret).num("src", src).raw("mem", mem().drain()).raw("s", "[" + state(0) + "," + state(1) + "]");
        std::vector<int> pv; for (int i = 0; i < 3; ++i) pv.push_back(pool[i].v);
        r.arr("pool", pv);
        return true;
    }
};
template <class T, class E> void go(const Script& s) { Run<T, E> r; r.run(s); }
#define R(N, T, ...) static Reg r_##N(#N, go<T, __VA_ARGS__>);
#if PART == 0
R(A_B, A, B) R(A_int, A, int) R(int_B, int, B) R(M_N, M, N)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
R(S_S, S, S) R(A_A, A, A) R(U_S, U, S) R(S_int, S, int)
#elif PART == 2
R(rA_B, A&, B) R(rA_int, A&, int) R(crA_N, const A&, N) R(rA_S, A&, S)
#elif PART == 3
R(v_B, void, B) R(v_int, void, int) R(v_N, void, N) R(v_S, void, S)
#elif PART == 4
R(A_v, A, void) R(M_v, M, void) R(int_v, int, void) R(S_v, S, void) R(rA_v, A&, void) R(v_v, void, void)
#endif
