// C29: utility.hpp and type_traits.hpp.
#include <itlib/utility.hpp>
#include <itlib/type_traits.hpp>
#include "vh.hpp"
#include <array>
#include <map>
#include <set>
#include <tuple>
using namespace vh;

// ------------------------------------------------------------------ owners
struct Inner { int a, b; };
struct OPlain { char first; int mid; char c; Inner in; double d; short arr[3]; bool last; int tag; };
struct alignas(64) OWide { char first; double mid; char last; int tag; };
struct OVirt { virtual ~OVirt() {} int x = 0; std::string s; int tag = 0; };
struct BaseA { int a1; char a2; };
struct BaseB { virtual void f() {} std::string b1; int b2; };
struct ODer : BaseA, BaseB { int d1; int tag; };
class OPriv { int p = 0; public: int q = 0; protected: char r = 0; public: long long z = 0; int tag = 0; };
union OUnion { int tag; char c; double d; };
struct OBig { char pad[300]; char near_; char more[70000]; double far_; int tag; };
template <class O> int& tag_of(O& o) { return o.tag; }

template <class O, class M> void own(Trace& t, int i, M O::* m) {
    constexpr int N = 5;
    std::unique_ptr<O[]> arr(new O[N]());
    for (int k = 0; k < N; ++k) tag_of(arr[k]) = k;
    auto base = reinterpret_cast<const char*>(arr.get());
    const M& mem = arr[i].*m;
    const O* r = itlib::owner_from_member(mem, m);
    O zero{};
    auto off = reinterpret_cast<const char*>(std::addressof(zero.*m)) - reinterpret_cast<const char*>(std::addressof(zero));
    int tag = r == &arr[i] ? r->tag : -1;
    t.ev(Rec().str("op", "own").num("i", i).num("sz", sizeof(O)).num("off", off).num("addr", reinterpret_cast<const char*>(std::addressof(mem)) - base)
         .num("res", reinterpret_cast<const char*>(r) - base).num("tag", tag).b("same", r == &arr[i]));
}
static void owners(Trace& t, int i) {
    own(t, i, &OPlain::first); own(t, i, &OPlain::mid); own(t, i, &OPlain::c); own(t, i, &OPlain::in); own(t, i, &OPlain::d); own(t, i, &OPlain::arr); own(t, i, &OPlain::last); own(t, i, &OPlain::tag);
    own(t, i, &OWide::first); own(t, i, &OWide::mid); own(t, i, &OWide::last); own(t, i, &OWide::tag);
    own(t, i, &OVirt::x); own(t, i, &OVirt::s); own(t, i, &OVirt::tag);
    own(t, i, &ODer::d1); own(t, i, &ODer::tag);
    own<ODer, int>(t, i, static_cast<int ODer::*>(&ODer::a1)); own<ODer, char>(t, i, static_cast<char ODer::*>(&ODer::a2));
    own<ODer, std::string>(t, i, static_cast<std::string ODer::*>(&ODer::b1)); own<ODer, int>(t, i, static_cast<int ODer::*>(&ODer::b2));
    own(t, i, &OPriv::q); own(t, i, &OPriv::z); own(t, i, &OPriv::tag);
    own(t, i, &OUnion::tag);
    own(t, i, &OBig::pad); own(t, i, &OBig::near_); own(t, i, &OBig::far_); own(t, i, &OBig::tag);
}

// ------------------------------------------------------------------ bits
struct S4 { uint16_t a; uint8_t b, c; };
struct S16 { double a; int b; float c; };
enum class E8 : uint8_t {};
template <class Dst, class Src> void bits(Trace& t, const Op& o) {
    unsigned char in[sizeof(Src)], out[sizeof(Dst)];
    for (size_t k = 0; k < sizeof(Src); ++k) in[k] = (unsigned char)o.arg(k + 1);
    std::unique_ptr<Src> s(new Src);
    memcpy(s.get(), in, sizeof in);
    Dst d = itlib::bit_cast<Dst>(*s);
    memcpy(out, &d, sizeof out);
    long num = -1;
    if (sizeof(Dst) == 2) { uint16_t n; memcpy(&n, &d, 2); num = n; }
    memcpy(in, s.get(), sizeof in);
    t.ev(Rec().str("op", "bits").num("n", sizeof(Src)).arr("a", std::vector<int>(in, in + sizeof in)).arr("b", std::vector<int>(out, out + sizeof out)).num("num", num));
}
static void bit(Trace& t, const Op& o) {
    switch (o.arg(0)) {
    case 0: return bits<float, uint32_t>(t, o);
    case 1: return bits<uint32_t, float>(t, o);
    case 2: return bits<double, uint64_t>(t, o);
    case 3: return bits<int64_t, double>(t, o);
    case 4: return bits<uint32_t, std::array<uint8_t, 4>>(t, o);
    case 5: return bits<std::array<uint8_t, 4>, int32_t>(t, o);
    case 6: return bits<uint32_t, S4>(t, o);
    case 7: return bits<S4, float>(t, o);
    case 8: return bits<uint64_t, const void*>(t, o);
    case 9: return bits<void*, uint64_t>(t, o);
    case 10: return bits<E8, uint8_t>(t, o);
    case 11: return bits<int8_t, E8>(t, o);
    case 12: return bits<uint16_t, std::array<uint8_t, 2>>(t, o);
    case 13: return bits<uint16_t, int16_t>(t, o);
    case 14: return bits<std::array<unsigned char, 16>, S16>(t, o);
    case 15: return bits<S16, std::array<double, 2>>(t, o);
    case 16: return bits<std::array<uint8_t, 300>, std::array<uint8_t, 300>>(t, o);
    case 17: return bits<float, int32_t>(t, o);
    default: return bits<double, double>(t, o);
    }
}

// ------------------------------------------------------------------ traits
enum class E32 : int32_t {};
enum class EU8 : uint8_t {};
enum EOld { old_a, old_b = 100000 };
enum class EB : bool {};
struct C4 { int x; };
struct C1 { char c; };
template <class T> constexpr char kind() {
    using U = typename std::remove_cv<T>::type;
    return std::is_same<U, bool>::value ? 'b' : std::is_same<U, EB>::value ? 'B' : std::is_enum<U>::value ? 'e' : std::is_floating_point<U>::value ? 'f' : std::is_pointer<U>::value ? 'p'
         : std::is_integral<U>::value ? (std::is_signed<U>::value ? 'i' : 'u') : 'c';
}
template <class T> std::string desc() {
    const char k = kind<T>();
    return "[" + std::to_string(sizeof(T)) + ",\"" + (k == 'B' ? std::string("eb") : std::string(1, k)) + "\"]";
}
template <class F, class T, class = void> struct Castable : std::false_type {};
template <class F, class T> struct Castable<F, T, decltype(void(static_cast<T>(std::declval<F>())))> : std::integral_constant<bool, kind<F>() != 'c' && kind<T>() != 'c'> {};
// whether a cast of any sample keeps its representation
template <class F, class T, bool C> struct Try { static bool go() { return false; } };
template <class F, class T> struct Try<F, T, true> {
    using From = typename std::remove_cv<F>::type;
    using To = typename std::remove_cv<T>::type;
    static bool one(uint64_t x) {
        From f; memcpy(&f, &x, sizeof f < 8 ? sizeof f : 8);
        if (kind<From>() == 'f' && sizeof f <= 8) { // what does not fit is not cast
            double d = double(*reinterpret_cast<typename std::conditional<kind<From>() == 'f', From, double>::type*>(&f));
            if (!(d > -1e4 && d < 1e4) && kind<To>() != 'f') return true;
            if (d != d) return true;
            if (d < 0 && kind<To>() != 'i' && kind<To>() != 'f') return true;
            if (kind<To>() == 'e' && (d < 0 || d > 100)) return true;
        }
        To t = static_cast<To>(f);
        return sizeof f == sizeof t && !memcmp(&f, &t, sizeof t);
    }
    static bool go() {
        if (sizeof(F) != sizeof(T) || sizeof(F) > 8) return false;
        if (kind<F>() == 'b' || kind<F>() == 'B') return one(0) && one(1);
        if (sizeof(F) == 1) { for (unsigned i = 0; i < 256; ++i) if (!one(i)) return false; return true; }
        for (uint64_t x : {uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(77), uint64_t(0x3f800000), uint64_t(0x3ff0000000000000), uint64_t(0x4059000000000000), uint64_t(0x42c80000), ~uint64_t(0), uint64_t(0x80000000), uint64_t(0x8000000000000000), uint64_t(0x123456789abcdef0)})
            if (!one(x)) return false;
        return true;
    }
};
template <class...> struct List {};
template <class F, class T> void noop(Trace& t) {
    constexpr bool c = Castable<typename std::remove_cv<F>::type, typename std::remove_cv<T>::type>::value && sizeof(F) == sizeof(T) && sizeof(F) <= 8;
    bool v = itlib::is_noop_convertible<F, T>::value, w = v;
#if __cplusplus >= 201703L
    w = itlib::is_noop_convertible_v<F, T>;
#endif
    t.ev(Rec().str("op", "noop").raw("f", desc<F>()).raw("t", desc<T>()).b("r", v).b("v", w).b("cast", c).b("same", Try<F, T, c>::go()));
}
template <class F, class... T> void row(Trace& t, List<T...>) { int d[] = {(noop<F, T>(t), 0)...}; (void)d; }
template <class L, class... F> void table(Trace& t, List<F...>, L l) { int d[] = {(row<F>(t, l), 0)...}; (void)d; }
using Types = List<bool, const bool, volatile bool, const volatile bool, char, signed char, unsigned char, const uint8_t, volatile int8_t, short, unsigned short, char16_t, int, unsigned, const int, volatile unsigned, char32_t,
    long, unsigned long, const volatile long, long long, unsigned long long, float, const float, double, volatile double, long double, void*, const char*, int* const, E32, EU8, const EU8, EOld, EB, const EB, volatile EB, C4, const C4, C1>;

template <class...> struct Var {};
struct Derived : std::vector<int> {};
template <class T> using Alias = std::vector<T>;
// which template a type is an instantiation of
template <class T> struct Of { static constexpr int id = 0; };
template <class... A> struct Of<std::vector<A...>> { static constexpr int id = 1; };
template <class... A> struct Of<std::basic_string<A...>> { static constexpr int id = 2; };
template <class... A> struct Of<std::map<A...>> { static constexpr int id = 3; };
template <class... A> struct Of<std::tuple<A...>> { static constexpr int id = 4; };
template <class... A> struct Of<std::pair<A...>> { static constexpr int id = 5; };
template <class... A> struct Of<std::shared_ptr<A...>> { static constexpr int id = 6; };
template <class... A> struct Of<Var<A...>> { static constexpr int id = 7; };
template <class... A> struct Of<std::set<A...>> { static constexpr int id = 8; };
template <class... A> struct Of<std::less<A...>> { static constexpr int id = 9; };
template <template <class...> class M, class T> void inst1(Trace& t, int m) {
    bool v = itlib::is_instantiation_of<M, T>::value, w = v;
#if __cplusplus >= 201703L
    w = itlib::is_instantiation_of_v<M, T>;
#endif
    t.ev(Rec().str("op", "inst").num("m", m).num("y", Of<T>::id).b("r", v).b("v", w));
}
template <template <class...> class M, class... T> void instm(Trace& t, int m, List<T...>) { int d[] = {(inst1<M, T>(t, m), 0)...}; (void)d; }
using Insts = List<int, void, std::vector<int>, std::vector<bool>, std::vector<std::vector<int>>, Alias<char>, Derived, std::string, std::wstring, std::map<int, int>, std::map<std::string, std::vector<int>>, std::multiset<int>,
    std::tuple<>, std::tuple<int>, std::tuple<int, char, std::tuple<>>, std::pair<int, int>, std::pair<std::vector<int>, std::string>, std::shared_ptr<int>, std::unique_ptr<int>, Var<>, Var<int>, Var<Var<>, int>, int (*)(std::vector<int>), std::set<int>, std::less<int>, std::greater<int>, C4>;
static void insts(Trace& t) {
    instm<std::vector>(t, 1, Insts{}); instm<std::basic_string>(t, 2, Insts{}); instm<std::map>(t, 3, Insts{}); instm<std::tuple>(t, 4, Insts{});
    instm<std::pair>(t, 5, Insts{}); instm<std::shared_ptr>(t, 6, Insts{}); instm<Var>(t, 7, Insts{}); instm<std::set>(t, 8, Insts{}); instm<std::less>(t, 9, Insts{});
    auto id = [&](bool b) { t.ev(Rec().str("op", "ident").b("r", b)); };
#define ID(...) id(std::is_same<itlib::type_identity<__VA_ARGS__>::type, __VA_ARGS__>::value)
    ID(int); ID(const int); ID(volatile int&); ID(int&&); ID(void); ID(int[3]); ID(int[]); ID(const char (&)[4]); ID(int(char)); ID(int (*)(char)); ID(int C4::*); ID(std::vector<int>); ID(void() const); ID(const volatile void);
#if __cplusplus >= 201703L
    id(std::is_same<itlib::type_identity_t<const int&>, const int&>::value);
    id(std::is_same<itlib::type_identity_t<int[]>, int[]>::value);
#endif
}

// ------------------------------------------------------------------ moves
static int copies, moves;
struct M {
    int v;
    explicit M(int x) : v(x) {}
    M(const M& o) : v(o.v) { ++copies; }
    M(M&& o) noexcept : v(o.v) { o.v = MOVED; ++moves; }
    M& operator=(const M& o) { v = o.v; ++copies; return *this; }
    M& operator=(M&& o) noexcept { v = o.v; o.v = MOVED; ++moves; return *this; }
};
static void move(Trace& t, int k, int v) {
    copies = moves = 0;
    M s(v); int got = 0, left = -1; bool self = true;
    switch (k) {
    case 0: { M d = itlib::force_move(s); got = d.v; left = s.v; break; }
    case 1: { M d(itlib::force_move(static_cast<M&&>(s))); got = d.v; left = s.v; break; }
    case 2: { M d = itlib::force_move(M(v)); got = d.v; break; }
    case 3: { M d(0); d = itlib::force_move(s); got = d.v; left = s.v; break; }
    case 4: { M&& r = itlib::force_move(s); self = &r == &s; got = r.v; left = s.v; break; }
    default: { M& l = s; M d = itlib::force_move(l); got = d.v; left = s.v; self = noexcept(itlib::force_move(l)) && std::is_same<decltype(itlib::force_move(l)), M&&>::value && std::is_same<decltype(itlib::force_move(M(1))), M&&>::value; }
    }
    t.ev(Rec().str("op", "move").num("k", k).num("val", v).num("copies", copies).num("moves", moves).num("got", got).num("left", left).num("gone", MOVED).b("self", self));
}
class incomplete;
static Reg r1("util", [](const Script& s) {
    Trace t(s.id, Rec().str("kind", "util"));
    for (auto& o : s.ops) {
        if (o.name == "own") owners(t, int(o.arg(0)));
        else if (o.name == "bits") bit(t, o);
        else if (o.name == "noop") table(t, Types{}, Types{});
        else if (o.name == "inst") insts(t);
        else if (o.name == "move") move(t, int(o.arg(0)), int(o.arg(1)));
        else if (o.name == "null") {
            incomplete* p = itlib::make_nullptr<incomplete>(); const int* q = itlib::make_nullptr<const int>(); int (*f)(char) = itlib::make_nullptr<int(char)>();
            t.ev(Rec().str("op", "null").b("r", p == nullptr && q == nullptr && f == nullptr && std::is_same<decltype(itlib::make_nullptr<incomplete>()), incomplete*>::value));
        }
    }
});
int main(int c, char** v) { return drive(c, v, 20); }
