// Driver for dynamic_bitset over several word types and buffers.
#include "vh.hpp"
#include <itlib/dynamic_bitset.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
using namespace vh;

template <class B, class = void> struct HasReserve : std::false_type {};
template <class B> struct HasReserve<B, decltype(std::declval<B&>().reserve(size_t(1)))> : std::true_type {};

// an allocator which refuses the next request when told to
static bool deny = false;
template <class T> struct Stingy {
    using value_type = T;
    Stingy() = default; template <class U> Stingy(const Stingy<U>&) {}
    T* allocate(size_t n) { if (deny) { deny = false; throw std::bad_alloc(); } return std::allocator<T>().allocate(n); }
    void deallocate(T* p, size_t n) { std::allocator<T>().deallocate(p, n); }
    bool operator==(const Stingy&) const { return true; } bool operator!=(const Stingy&) const { return false; }
};
template <class B> struct Limit { static constexpr long v = -1; };
template <class T, size_t N> struct Limit<itlib::static_vector<T, N>> { static constexpr long v = long(N); };

template <class Buf> struct Run {
    using B = itlib::dynamic_bitset<Buf>; using W = typename B::word_type;
    static constexpr int wb = sizeof(W) * 8;
    alignas(B) unsigned char store[2][sizeof(B)];
    B* m[2];
    static std::string pack(const std::vector<int>& v) { // chunks of 24 bits
        std::string r = "[";
        for (size_t i = 0; i < v.size(); i += 24) { long x = 0; for (size_t k = 0; k < 24 && i + k < v.size(); ++k) x |= long(v[i + k]) << k; r += (i ? "," : "") + std::to_string(x); }
        return r + "]";
    }
    static std::string bits(const B& b) { std::vector<int> v; for (size_t i = 0; i < b.size(); ++i) v.push_back(b.test(i)); return pack(v); }
    std::string state(int k) {
        const B& b = *m[k]; Rec r;
        r.raw("b", bits(b)).num("n", long(b.size())).b("all", b.all()).b("any", b.any()).b("none", b.none()).b("em", b.empty()).num("ws", long(b.word_size())).num("bs", long(b.byte_size())).num("bf", long(b.buffer().size()));
        return r.obj();
    }
    void run(const Script& s) {
        for (int k = 0; k < 2; ++k) m[k] = new (store[k]) B();
        Rec cfg; cfg.str("name", s.cfg).num("w", wb).num("lim", Limit<Buf>::v);
        Trace t(s.id, cfg);
        for (auto op : s.ops) {
            bool x = op.name.compare(0, 2, "x_") == 0; // refuse the first request for memory
            if (x) op.name.erase(0, 2);
            x = x && refusable(op.name);
            Rec r; r.str("op", op.name).b("deny", x); bool did = true; int o = int(op.arg(0, 1) - 1) & 1; bool live = true;
            const std::string ex = guarded([&] { did = step(op, r, x, live); });
            deny = false;
            if (!ex.empty()) { r.num("r", -1); if (!live) new (store[o]) B(); }
            if (did) t.ev(r.str("ex", ex).raw("s", "[" + state(0) + "," + state(1) + "]"));
        }
        for (int k = 0; k < 2; ++k) m[k]->~B();
    }
    static W word(long x) { uint64_t h = uint64_t(x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; if (x % 5 == 0) h = 0; if (x % 5 == 1) h = ~0ull; return W(h); }
    static bool refusable(const std::string& n) { return n == "c_n" || n == "c_copy" || n == "resize" || n == "reserve" || n == "push" || n == "append" || n == "append_self" || n == "assign" || n == "a_copy"; }
    bool step(const Op& op, Rec& r, bool x, bool& live) {
        struct Off { ~Off() { deny = false; } } off;
        const std::string& n = op.name;
        int o = int(op.arg(0, 1) - 1) & 1;
        B& a = *m[o]; B& b = *m[1 - o]; const B& ca = a;
        long sz = long(a.size()), osz = long(b.size()), ret = -1;
        auto I = [&](size_t i) { long x = op.arg(i) % sz; r.num("i", x); return size_t(x); };
        auto V = [&](size_t i) { bool v = op.arg(i) & 1; r.num("v", v); return v; };
        r.num("o", o + 1);
        auto words = [&](const std::vector<W>& ws) { std::vector<int> v; for (W w : ws) for (int k = 0; k < wb; ++k) v.push_back(int((uint64_t(w) >> k) & 1)); return v; };
        if (n == "c_def") { a.~B(); new (store[o]) B(); }
        else if (n == "c_n") { long k = op.arg(1); W w = word(op.arg(2)); r.num("n", k).arr("pat", words({w})); a.~B(); live = false; deny = x; if (op.arg(2) % 5 == 0) new (store[o]) B(size_t(k)); else new (store[o]) B(size_t(k), w); }
        else if (n == "c_copy") { a.~B(); live = false; deny = x; new (store[o]) B(static_cast<const B&>(b)); }
        else if (n == "c_move") { a.~B(); new (store[o]) B(std::move(b)); }
        else if (n == "a_copy") { deny = x; a = static_cast<const B&>(b); }
        else if (n == "a_move") a = std::move(b);
        else if (n == "a_self") { const B& x = a; a = x; }
        else if (n == "a_selfm") { B& x = a; a = std::move(x); }
        else if (n == "resize") { long k = op.arg(1); r.num("n", k); deny = x; a.resize(size_t(k)); }
        else if (n == "reserve") { if constexpr (HasReserve<Buf>::value) { r.num("n", op.arg(1)); deny = x; a.reserve(size_t(op.arg(1))); } else return false; }
        else if (n == "push") { bool v = V(1); deny = x; a.push_back(v); }
        else if (n == "assign") { std::vector<W> ws; for (long k = 0; k < op.arg(1) && (Limit<Buf>::v < 0 || k < Limit<Buf>::v); ++k) ws.push_back(word(op.arg(2) + k)); r.arr("bits", words(ws)); Buf buf; for (W w : ws) buf.push_back(w); deny = x; a.assign(buf); }
        else if (n == "append") { deny = x; a.append(b); }
        else if (n == "append_self") { deny = x; a.append(a); }
        else if (n == "copy" || n == "copy_self") { // copy,o,from,len,src
            bool self = n == "copy_self"; long ssz = self ? sz : osz;
            long len = op.arg(2); if (len > sz) len = sz; if (len > ssz) len = ssz;
            long f = op.arg(1) % (sz - len + 1), s = op.arg(3) % (ssz - len + 1);
            r.num("f", f).num("t", f + len).num("src", s);
            if (self) { if (op.arg(3) % 2) a.copy(a.begin() + f, a.begin() + (f + len), a.begin() + s); else a.copy(a.begin() + f, a.begin() + (f + len), ca.begin() + s); }
            else { const B& cb = b; if (op.arg(3) % 2) a.copy(a.begin() + f, a.begin() + (f + len), b.begin() + s); else a.copy(a.end() - (sz - f), a.end() - (sz - f - len), cb.end() - (osz - s)); }
        }
        else if (n == "poke") { // whatever lies beyond the size
            long used = sz % wb; if (!used) return false;
            W mask = W(~W(0) << used); W* p = a.data() + a.word_size() - 1; *p = W((*p & W(~mask)) | (word(op.arg(1)) & mask));
        }
        else if (n == "obs") {
            std::vector<int> ix, it, cit, rv, pr; size_t ni = 0;
            for (size_t i = 0; i < size_t(sz); ++i) { ix.push_back(ca[i]); pr.push_back(bool(a[i])); }
            for (auto i = a.begin(); i != a.end(); ++i) { it.push_back(bool(*i)); ++ni; }
            for (auto i = ca.begin(); i != ca.end(); i++) cit.push_back(*i);
            if (sz) { auto i = ca.end(); do { --i; rv.push_back(*i); } while (!(i == ca.begin())); }
            r.raw("ix", pack(ix)).raw("pr", pack(pr)).raw("it", pack(it)).raw("cit", pack(cit)).raw("rv", pack(rv)).num("len", a.end() - a.begin()).num("clen", ca.end() - ca.begin());
        }
        else {
            if (!sz) return false;
            if (n == "set") { size_t i = I(1); a.set(i); }
            else if (n == "reset") { size_t i = I(1); a.reset(i); }
            else if (n == "flip") { size_t i = I(1); a.flip(i); }
            else if (n == "setb") { size_t i = I(1); bool v = V(2); a.set(i, v); }
            else if (n == "rset") { size_t i = I(1); a[i].set(); }
            else if (n == "rreset") { size_t i = I(1); a[i].reset(); }
            else if (n == "rflip") { size_t i = I(1); a[i].flip(); }
            else if (n == "rsetb") { size_t i = I(1); bool v = V(2); a[i].set(v); }
            else if (n == "rasg") { size_t i = I(1); bool v = V(2); a[i] = v; }
            else if (n == "iasg") { size_t i = I(1); bool v = V(2); auto it = a.begin() + ptrdiff_t(i); *it = v; }
            else if (n == "fill") { bool v = V(1); for (auto it = a.begin(); it != a.end(); ++it) *it = v; }
            else if (n == "test") { size_t i = I(1); ret = a.test(i); }
            else return false;
        }
        r.num("r", ret);
        return true;
    }
};
template <class Buf> void go(const Script& s) { static Run<Buf> r; r.run(s); }
#define BV(N, ...) static Reg r_##N(#N, go<__VA_ARGS__>);
#if PART == 0
BV(v8, std::vector<uint8_t>) BV(v16, std::vector<uint16_t>)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
BV(v32, std::vector<uint32_t>) BV(v64, std::vector<uint64_t>)
#elif PART == 2
BV(small32, itlib::small_vector<uint32_t, 2>) BV(static16, itlib::static_vector<uint16_t, 64>)
#elif PART == 3
BV(pod8, itlib::pod_vector<uint8_t>) BV(pod64, itlib::pod_vector<uint64_t>)
#elif PART == 4
BV(few16, itlib::static_vector<uint16_t, 4>) BV(deny32, std::vector<uint32_t, Stingy<uint32_t>>) BV(deny8, std::vector<uint8_t, Stingy<uint8_t>>)
#endif
