// Driver for small_vector and static_vector: runs op scripts, records results, contents, storage and memory events.
#include "vh.hpp"
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <deque>
#include <algorithm>
#include <iterator>
using namespace vh;

template <class V> struct Kind;
template <class T, size_t SC, size_t RB, class A> struct Kind<itlib::small_vector<T, SC, RB, A>> {
    static constexpr bool small = true; using T_ = T; static constexpr long cap = SC, rb = RB;
    using Other = itlib::small_vector<T, SC + 3, 0, std::allocator<T>>;
};
template <class T, size_t C> struct Kind<itlib::static_vector<T, C>> {
    static constexpr bool small = false; using T_ = T; static constexpr long cap = C, rb = 0;
    using Other = itlib::static_vector<T, C + 3>;
};
template <class T> struct isHot : std::false_type {};
template <bool C, bool A> struct isHot<Hot<C, A>> : std::true_type {};
template <class T> struct Xfer : std::integral_constant<int, 0> {}; // moving an element: 0 never throws, 1 may throw, 2 is a copy, which may throw
template <bool C> struct Xfer<Hot<C, true>> : std::integral_constant<int, 1> {};
template <> struct Xfer<OnlyCopied> : std::integral_constant<int, 2> {};

template <class V> struct Run {
    using K = Kind<V>; using T = typename K::T_; using VT = Val<T>;
    using Other = typename K::Other;
    static constexpr bool small = K::small, copy = VT::copy;
    alignas(V) unsigned char store[2][sizeof(V) + 64];
    V* v[2]; int ib[2];
    int counter = 0; std::string kind;

    int next() { return counter = counter % 900 + 1; }
    // values are made outside of the fuse and only exist during one operation
    struct Args { // a range of fresh values
        std::vector<int> iv; std::vector<T> tv;
    };
    static std::vector<T> mk(const std::vector<int>& iv) { std::vector<T> r; r.reserve(iv.size()); for (int x : iv) r.push_back(VT::mk(x)); if constexpr (isHot<T>::value) for (auto& x : r) VT::heat(x); return r; }
    std::vector<int> fresh(long n) { std::vector<int> r; for (long i = 0; i < n; ++i) r.push_back(next()); return r; }

    template <class It> static std::vector<int> vals(It b, It e) { std::vector<int> r; for (; b != e; ++b) r.push_back(VT::get(*b)); return r; }

    std::string state(int k) {
        V& x = *v[k];
        Rec r;
        mem().on = false;
        auto s = mem().slot(x.data());
        r.arr("c", vals(x.begin(), x.end())).num("n", (long)x.size()).num("cap", (long)x.capacity());
        bool st = true;
        if constexpr (small) st = x.is_static();
        r.b("st", st).num("buf", s.first).num("off", s.second);
        if constexpr (small) { if constexpr (!std::is_same<typename V::allocator_type, std::allocator<T>>::value) r.num("al", x.get_allocator().id); else r.num("al", 0); }
        else r.num("al", 0);
        mem().on = true;
        return r.obj();
    }
    template <class... A> void rebuild(int k, const A&... a) {}

    void run(const Script& s) {
        mem().reset();
        Rec cfg;
        cfg.str("kind", small ? "small" : "static").num("sc", K::cap).num("rb", K::rb).b("tr", VT::tracked).str("name", s.cfg);
        bool la = false;
        if constexpr (small) la = !std::is_same<typename V::allocator_type, std::allocator<T>>::value;
        cfg.b("la", la).num("xf", Xfer<T>::value);
        for (int k = 0; k < 2; ++k) {
            v[k] = new (store[k]) V();
            ib[k] = mem().add_block(v[k]->data(), (K::cap ? K::cap : 1) * sizeof(T), sizeof(T));
        }
        cfg.arr("ib", std::vector<int>{ib[0], ib[1]});
        Trace t(s.id, cfg);
        long fuse = -1, afuse = -1;
        for (auto& op : s.ops) {
            if (op.name == "fuse") { fuse = op.arg(0); continue; }
            if (op.name == "afuse") { afuse = op.arg(0); continue; }
            Rec r; r.str("op", op.name);
            if (small && Xfer<T>::value && (op.name == "c_move" || op.name == "a_move" || op.name == "swap")) fuse = -1; // these are noexcept
            if (step(op, r, fuse, afuse)) t.ev(r);
            fuse = afuse = -1;
        }
        { // the end: destroy both
            Rec r; r.str("op", "end").num("o", 1).num("r", -1).str("ex", "").num("fz", 0);
            v[0]->~V(); v[1]->~V();
            r.raw("mem", mem().drain());
            std::string e = "{\"c\":[],\"n\":0,\"cap\":" + std::to_string(K::cap) + ",\"st\":true,\"buf\":0,\"off\":0,\"al\":0}";
            r.raw("s", "[" + e + "," + e + "]");
            t.ev(r);
        }
    }

    bool step(const Op& op, Rec& r, long fuse, long afuse) {
        const std::string& n = op.name;
        int o = int(op.arg(0, 1) - 1) & 1;
        V& a = *v[o]; V& b = *v[1 - o];
        long sz = long(a.size());
        long ret = -1; std::string ex;
        auto A = [&](size_t i, long lim) -> long { long x = op.arg(i + 1); return lim > 0 ? ((x % lim) + lim) % lim : 0; };
        auto P = [&](size_t i) { return A(i, sz + 1); };            // position in 0..size
        auto call = [&](auto&& f) {
            mem().fuse = fuse; mem().afuse = afuse;
            ex = guarded(f);
            mem().fuse = mem().afuse = -1;
        };
        auto at = [&](long p) { return a.begin() + p; };
        // constructions in place of object o
        auto recon = [&](auto&& f) {
            a.~V();
            call([&] { f(store[o]); });
            if (!ex.empty()) new (store[o]) V();
        };
        r.num("o", o + 1);
        // ---- constructors
        if (n == "c_def") { recon([&](void* m) { new (m) V(); }); }
        else if (n == "c_n") { long k = op.arg(1); r.num("n", k); if constexpr (std::is_default_constructible<T>::value) recon([&](void* m) { new (m) V(size_t(k)); }); else return false; }
        else if (n == "c_move") { recon([&](void* m) { new (m) V(std::move(b)); }); }
        else if (n == "a_move") { call([&] { a = std::move(b); }); }
        else if (n == "a_selfm") { call([&] { V& al = a; a = std::move(al); }); }
        else if (n == "push") { if constexpr (copy) { auto iv = fresh(1); auto x = mk(iv); r.arr("vs", iv); call([&] { const T& c = x[0]; a.push_back(c); }); } else return false; }
        else if (n == "pushm") { auto iv = fresh(1); auto x = mk(iv); r.arr("vs", iv); call([&] { a.push_back(std::move(x[0])); }); }
        else if (n == "push_self") { if constexpr (copy) { if (!sz) return false; long i = A(0, sz); r.num("i", i); call([&] { a.push_back(a[i]); }); } else return false; }
        else if (n == "emplb") { auto iv = fresh(1); r.arr("vs", iv); auto x = mk(iv);
            call([&] { T* p; if constexpr (std::is_constructible<T, int>::value) p = std::addressof(a.emplace_back(iv[0])); else p = std::addressof(a.emplace_back(std::move(x[0]))); ret = p - a.data(); }); }
        else if (n == "emplb_self") { if constexpr (copy) { if (!sz) return false; long i = A(0, sz); r.num("i", i); call([&] { ret = std::addressof(a.emplace_back(a[i])) - a.data(); }); } else return false; }
        else if (n == "ins") { if constexpr (copy) { long p = P(0); auto iv = fresh(1); auto x = mk(iv); r.num("p", p).arr("vs", iv); call([&] { const T& c = x[0]; ret = a.insert(at(p), c) - a.begin(); }); } else return false; }
        else if (n == "insm") { long p = P(0); auto iv = fresh(1); auto x = mk(iv); r.num("p", p).arr("vs", iv); call([&] { ret = a.insert(at(p), std::move(x[0])) - a.begin(); }); }
        else if (n == "ins_self") { if constexpr (copy) { if (!sz) return false; long p = P(0), i = A(1, sz); r.num("p", p).num("i", i); call([&] { const T& c = a[i]; ret = a.insert(at(p), c) - a.begin(); }); } else return false; }
        else if (n == "ins_fill") { if constexpr (copy) { long p = P(0), k = op.arg(2); auto iv = fresh(1); auto x = mk(iv); r.num("p", p).num("n", k).arr("vs", std::vector<int>(k, iv[0])); call([&] { ret = a.insert(at(p), size_t(k), x[0]) - a.begin(); }); } else return false; }
        else if (n == "ins_fill_self") { if constexpr (copy) { if (!sz) return false; long p = P(0), k = op.arg(2), i = A(2, sz); r.num("p", p).num("n", k).num("i", i); call([&] { const T& c = a[i]; ret = a.insert(at(p), size_t(k), c) - a.begin(); }); } else return false; }
        else if (n == "ins_range") {
            long p = P(0), k = op.arg(2); auto iv = fresh(k); auto x = mk(iv); r.num("p", p).num("n", k).arr("vs", iv);
            if constexpr (copy) {
                if (k % 3 == 1) { std::deque<T> d(x.begin(), x.end()); call([&] { ret = a.insert(at(p), d.begin(), d.end()) - a.begin(); }); }
                else if (k % 3 == 2) { const T* f = x.data(); call([&] { ret = a.insert(at(p), f, f + k) - a.begin(); }); }
                else call([&] { ret = a.insert(at(p), x.begin(), x.end()) - a.begin(); });
            }
            else call([&] { ret = a.insert(at(p), std::make_move_iterator(x.begin()), std::make_move_iterator(x.end())) - a.begin(); });
        }
        else if (n == "ins_il" || n == "as_il" || n == "c_il") {
            if constexpr (copy) {
                bool ins = n == "ins_il";
                long p = ins ? P(0) : 0, k = op.arg(ins ? 2 : 1) % 10; auto iv = fresh(k); r.arr("vs", iv).num("n", k);
                if (ins) r.num("p", p);
                auto go = [&](std::initializer_list<T> il) {
                    if (ins) call([&] { ret = a.insert(at(p), il) - a.begin(); });
                    else if (n == "as_il") call([&] { a.assign(il); });
                    else recon([&](void* m) { new (m) V(il); });
                };
                auto x = [&](int i) { return VT::mk(iv[i]); };
                with_il<9, T>(size_t(k), x, go);
            } else return false;
        }
        else if (n == "empl") { long p = P(0); auto iv = fresh(1); auto x = mk(iv); r.num("p", p).arr("vs", iv);
            call([&] { if constexpr (std::is_constructible<T, int>::value) ret = a.emplace(at(p), iv[0]) - a.begin(); else ret = a.emplace(at(p), std::move(x[0])) - a.begin(); }); }
        else if (n == "empl_self") { if constexpr (copy) { if (!sz) return false; long p = P(0), i = A(1, sz); r.num("p", p).num("i", i); call([&] { ret = a.emplace(at(p), a[i]) - a.begin(); }); } else return false; }
        else if (n == "er") { if (!sz) return false; long p = A(0, sz); r.num("p", p); call([&] { ret = a.erase(at(p)) - a.begin(); }); }
        else if (n == "er_range") { long p = P(0), q = P(1); if (p > q) std::swap(p, q); r.num("p", p).num("q", q); call([&] { ret = a.erase(at(p), at(q)) - a.begin(); }); }
        else if (n == "pop") { if (!sz) return false; call([&] { a.pop_back(); }); }
        else if (n == "clear") { call([&] { a.clear(); }); }
        else if (n == "res") { long k = op.arg(1); r.num("n", k); call([&] { a.resize(size_t(k)); }); }
        else if (n == "set") { if constexpr (std::is_move_assignable<T>::value) { if (!sz) return false; long i = A(0, sz); int x = next(); r.num("i", i).num("v", x); T y = VT::mk(x); call([&] { if (i % 2) a[i] = std::move(y); else a.at(i) = std::move(y); }); } else return false; }
        else if (n == "obs") {
            const V& ca = a;
            mem().on = false;
            r.arr("fw", vals(a.begin(), a.end())).arr("cfw", vals(ca.begin(), ca.end())).arr("ccfw", vals(a.cbegin(), a.cend()));
            r.arr("rv", vals(a.rbegin(), a.rend())).arr("crv", vals(ca.rbegin(), ca.rend())).arr("ccrv", vals(a.crbegin(), a.crend()));
            std::vector<int> ix, cix, xt, cxt, dt, cdt, fb;
            for (long i = 0; i < sz; ++i) { ix.push_back(VT::get(a[i])); cix.push_back(VT::get(ca[i])); xt.push_back(VT::get(a.at(i))); cxt.push_back(VT::get(ca.at(i))); dt.push_back(VT::get(a.data()[i])); cdt.push_back(VT::get(ca.data()[i])); }
            if (sz) fb = {VT::get(a.front()), VT::get(ca.front()), VT::get(a.back()), VT::get(ca.back())};
            r.arr("ix", ix).arr("cix", cix).arr("at", xt).arr("cat", cxt).arr("dt", dt).arr("cdt", cdt).arr("fb", fb).b("em", a.empty()).num("sz", (long)ca.size());
            mem().on = true;
        }
        else if (n == "eq") {
            if constexpr (std::is_same<T, Odd>::value) for (auto& x : b) x.mark = Odd::fresh();
            bool e1 = false, e2 = false, e3 = false;
            if constexpr (copy) { call([&] { e1 = a == b; e2 = b == a; e3 = a != b; }); ret = e1 == e2 && e1 != e3 ? e1 : 7; } else return false;
        }
        else if (n == "eqx") { // against a vector of another static capacity
            if constexpr (copy) {
                bool fits = small || long(b.size()) <= K::cap + 3;
                if (!fits) return false;
                mem().on = false;
                if constexpr (std::is_same<T, Odd>::value) for (auto& x : b) x.mark = Odd::fresh();
                Other x(b.begin(), b.end());
                bool e1 = a == x, e2 = x == a, e3 = a != x;
                ret = e1 == e2 && e1 != e3 ? e1 : 7;
                x.clear(); { Other y(std::move(x)); }
                mem().on = true;
            } else return false;
        }
        else if (n == "max") { ret = a.max_size() >= size_t(sz) ? 1 : 0; }
        else if (n == "swap") { if constexpr (small) call([&] { std::swap(a, b); }); else if constexpr (std::is_move_assignable<T>::value) call([&] { if (op.arg(1) % 2) b.swap(a); else a.swap(b); }); else return false; }
        else if (n == "c_range" || n == "as_range") {
            long k = op.arg(1); auto iv = fresh(k); auto x = mk(iv); r.num("n", k).arr("vs", iv);
            auto go = [&](auto f, auto l) { if (n == "c_range") recon([&](void* m) { new (m) V(f, l); }); else call([&] { a.assign(f, l); }); };
            if constexpr (copy) {
                if (k % 3 == 1) { std::deque<T> d(x.begin(), x.end()); go(d.cbegin(), d.cend()); }
                else if (k % 3 == 2) go(x.data(), x.data() + k);
                else go(x.begin(), x.end());
            }
            else go(std::make_move_iterator(x.begin()), std::make_move_iterator(x.end()));
        }
        else if constexpr (copy) {
            if (n == "c_fill") { long k = op.arg(1); auto iv = fresh(1); auto x = mk(iv); r.num("n", k).arr("vs", std::vector<int>(k, iv[0])); recon([&](void* m) { new (m) V(size_t(k), x[0]); }); }
            else if (n == "c_copy") { recon([&](void* m) { new (m) V(static_cast<const V&>(b)); }); }
            else if (n == "c_copya") { if constexpr (small) { auto al = b.get_allocator(); if constexpr (!std::is_same<typename V::allocator_type, std::allocator<T>>::value) al.id += 1; recon([&](void* m) { new (m) V(static_cast<const V&>(b), al); }); } else return false; }
            else if (n == "c_conv") { if constexpr (!small) { long k = op.arg(1) % (K::cap + 4); auto iv = fresh(k); auto x = mk(iv); Other y(x.begin(), x.end()); r.num("n", k).arr("vs", iv); recon([&](void* m) { new (m) V(y); }); } else return false; }
            else if (n == "a_copy") { call([&] { a = static_cast<const V&>(b); }); }
            else if (n == "a_self") { call([&] { const V& al = a; a = al; }); }
            else if (n == "as_fill") { long k = op.arg(1); auto iv = fresh(1); auto x = mk(iv); r.num("n", k).arr("vs", std::vector<int>(k, iv[0])); call([&] { a.assign(size_t(k), x[0]); }); }
            else if (n == "res_v") { long k = op.arg(1); int x = next(); T y = VT::mk(x); r.num("n", k).num("v", x); call([&] { a.resize(size_t(k), y); }); }
            else if (n == "res_self") { if (!sz) return false; long k = op.arg(1), i = A(1, sz); r.num("n", k).num("i", i); call([&] { a.resize(size_t(k), a[i]); }); }
            else if (n == "ins_huge") { long p = P(0); if (!sz) return false; if constexpr (!small) { auto iv = fresh(1); auto x = mk(iv); r.num("p", p); call([&] { a.insert(at(p), size_t(0) - size_t(1 + op.arg(2) % sz), x[0]); }); } else return false; }
            else if (!small_op(n, op, a, b, r, call, ret, sz)) return false;
        }
        else if (!small_op(n, op, a, b, r, call, ret, sz)) return false;
        r.num("r", ret).str("ex", ex).num("fz", fuse >= 0 ? 1 : afuse >= 0 ? 2 : 0);
        r.raw("mem", mem().drain());
        r.raw("s", "[" + state(0) + "," + state(1) + "]");
        return true;
    }
    template <class Call> bool small_op(const std::string& n, const Op& op, V& a, V& b, Rec& r, Call& call, long& ret, long sz) {
        if constexpr (small) {
            if (n == "reserve") { long k = op.arg(1); r.num("n", k); call([&] { a.reserve(size_t(k)); }); return true; }
            if (n == "shrink") { bool x = false; call([&] { x = a.shrink_to_fit(); }); ret = x; return true; }
            if (n == "revert") { bool x = false; call([&] { x = a.revert_to_static(); }); ret = x; return true; }
            if (n == "bad_ins") { // the pointers are only compared, as in the repository's own test
                auto iv = fresh(1); auto xs = mk(iv); T& x = xs[0]; long how = op.arg(1) / 2 % 7; bool far = op.arg(1) % 2; r.num("i", op.arg(1) % 14);
                auto where = [&] { return far ? a.end() + 1 : a.begin() - 1; };
                if constexpr (copy) {
                    const T& cx = x; bool did = true;
                    switch (how) {
                        case 1: call([&] { a.insert(where(), cx); }); break;
                        case 2: call([&] { a.insert(where(), size_t(2), cx); }); break;
                        case 3: call([&] { a.insert(where(), size_t(0), cx); }); break;
                        case 4: call([&] { a.insert(where(), xs.begin(), xs.end()); }); break;
                        case 5: { std::initializer_list<T> none; call([&] { a.insert(where(), none); }); break; }
                        default: did = false;
                    }
                    if (did) return true;
                }
                if (how == 6) call([&] { a.emplace(where(), std::move(x)); }); else call([&] { a.insert(where(), std::move(x)); });
                return true;
            }
            if (n == "bad_er") {
                long k = op.arg(1) % 9; r.num("i", k);
                if (sz < 2 && (k == 2 || k == 6)) return false;
                call([&] {
                    switch (k) {
                        case 0: a.erase(a.begin() - 1); break;
                        case 1: a.erase(a.end() + 1); break;
                        case 2: a.erase(a.begin() + 1, a.begin()); break;
                        case 3: a.erase(a.begin() - 1, a.begin() + (sz ? 1 : 0)); break;
                        case 4: a.erase(a.begin(), a.end() + 1); break;
                        case 5: a.erase(a.end()); break;
                        case 7: a.erase(a.end() + 1, a.end() + 1); break;
                        case 8: a.erase(a.begin() - 1, a.begin() - 1); break;
                        default: a.erase(a.end() - 1, a.begin()); break;
                    }
                });
                return true;
            }
        }
        else { // removing from an empty bounded vector
            if (n == "pop_empty") { if (sz) return false; call([&] { a.pop_back(); }); return true; }
        }
        return false;
    }
};

template <class V> void go(const Script& s) { static Run<V> r; r.counter = 0; r.run(s); }
template <class T, size_t S, size_t R> using SA = itlib::small_vector<T, S, R, Alloc<T>>;
template <class T, size_t S> using ST = itlib::static_vector<T, S>;
#define SV(N, T, S, R) static Reg r_##N##_##S##_##R("small_" #N "_" #S "_" #R, go<SA<T, S, R>>);
#define SVD(N, T, S, R) static Reg rd_##N##_##S##_##R("smalld_" #N "_" #S "_" #R, go<itlib::small_vector<T, S, R>>);
#define TV(N, T, S) static Reg t_##N##_##S("static_" #N "_" #S, go<ST<T, S>>);
using hotc = Hot<true>; using hotm = Hot<false>; using jumpc = Hot<true, true>; using jumpm = Hot<false, true>; using str = std::string; using uptr = std::unique_ptr<int>;
#if PART == 0
SV(elem, Elem, 1, 0) SV(elem, Elem, 1, 2)
SV(elem, Elem, 8, 9)
SV(hotelem, hotc, 2, 2) SV(hotelemm, hotm, 3, 0)
SV(jumpelem, jumpc, 2, 2) SV(jumpelemm, jumpm, 3, 0) SV(onlyelem, OnlyCopied, 2, 0) SV(onlyelem, OnlyCopied, 4, 5)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
SV(elem, Elem, 2, 0) SV(elem, Elem, 2, 2)
#elif PART == 2
SV(elem, Elem, 2, 3) SV(elem, Elem, 5, 3) SV(elem, Elem, 16, 0)
#elif PART == 3
SV(int, int, 1, 0) SV(int, int, 1, 2) SV(int, int, 2, 0) SV(int, int, 2, 2) SV(int, int, 2, 3)
#elif PART == 4
SV(str, str, 4, 2) SV(str, str, 2, 3) SV(wide, Wide, 3, 2)
#elif PART == 5
SV(uptr, uptr, 2, 0) SV(uptr, uptr, 4, 5) SVD(int, int, 4, 3) SVD(str, str, 16, 0)
SV(elem, Elem, 0, 0) SV(int, int, 0, 1) // no static buffer at all
SV(fixed, Fixed, 2, 0) SV(fixed, Fixed, 4, 3) SV(odd, Odd, 3, 2)
#elif PART == 6
TV(elem, Elem, 1) TV(elem, Elem, 3) TV(elem, Elem, 8)
TV(hotelem, hotc, 4) TV(hotelemm, hotm, 3)
TV(jumpelem, jumpc, 3) TV(jumpelemm, jumpm, 5) TV(onlyelem, OnlyCopied, 4)
#elif PART == 7
TV(int, int, 3) TV(str, str, 4) TV(uptr, uptr, 5) TV(wide, Wide, 4) TV(int, int, 40) TV(int, int, 300) TV(fixed, Fixed, 4) TV(odd, Odd, 4)
#endif
