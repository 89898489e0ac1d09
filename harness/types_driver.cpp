// C30: special members, conversions and access, as the compiler sees them; and what growing a vector of them does.
#include <itlib/any.hpp>
#include <itlib/atomic_shared_ptr_storage.hpp>
#include <itlib/data_mutex.hpp>
#include <itlib/dynamic_bitset.hpp>
#include <itlib/expected.hpp>
#include <itlib/flat_map.hpp>
#include <itlib/flat_set.hpp>
#if __cplusplus >= 202002L
#include <itlib/generator.hpp>
#include <itlib/transparent_umap.hpp>
#endif
#include <itlib/memory_view.hpp>
#include <itlib/mutex.hpp>
#include <itlib/pod_vector.hpp>
#include <itlib/poly_span.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/span.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/stride_span.hpp>
#include <itlib/ufunction.hpp>
#include "vh.hpp"
#include <array>
#include <mutex>
#include <shared_mutex>
using namespace vh;
using namespace itlib;

template <class X> using CX = const X;
struct Base { int a; };
struct Derived : Base { int b; };
template <class E> struct Eid; // element types by number
template <> struct Eid<int> { static constexpr int v = 0; }; template <> struct Eid<unsigned> { static constexpr int v = 1; };
template <> struct Eid<Base> { static constexpr int v = 2; }; template <> struct Eid<Derived> { static constexpr int v = 3; };

// ------------------------------------------------------------------ descriptors
template <class X> struct Desc;
#define DESC(KIND, W, ...) template <class E> struct Desc<__VA_ARGS__> { static constexpr const char* k = KIND; static constexpr int e = Eid<E>::v; static constexpr bool w = W; };
DESC("span", true, span<E>) DESC("span", false, span<const E>) DESC("stride", true, stride_span<E>) DESC("stride", false, stride_span<const E>)
DESC("mview", true, memory_view<E>) DESC("cview", false, const_memory_view<E>)
DESC("vector", true, std::vector<E>) DESC("vector", false, const std::vector<E>) DESC("array", true, std::array<E, 3>) DESC("array", false, const std::array<E, 3>)
DESC("carr", true, E[3]) DESC("carr", false, const E[3])
DESC("pod", true, pod_vector<E>) DESC("pod", false, const pod_vector<E>) DESC("small", true, small_vector<E, 3>) DESC("small", false, const small_vector<E, 3>)
DESC("static", true, static_vector<E, 3>) DESC("static", false, const static_vector<E, 3>)

template <class X> std::string desc(bool temp) { return Rec().str("k", Desc<X>::k).num("e", Desc<X>::e).b("w", Desc<X>::w).b("t", temp).obj(); }
template <class... X> struct List {};
template <class To, class From, bool Temp> void conv1(Trace& t) {
    using F = typename std::conditional<Temp, From&&, From&>::type;
    t.ev(Rec().str("op", "conv").raw("f", desc<From>(Temp)).raw("t", desc<To>(false)).b("i", std::is_convertible<F, To>::value).b("c", std::is_constructible<To, F>::value).b("a", std::is_assignable<To&, F>::value));
}
template <class To, class... F> void convs(Trace& t, List<F...>) { int d[] = {(conv1<To, F, false>(t), conv1<To, F, true>(t), 0)...}; (void)d; }
template <class E> using Targets = List<span<E>, span<const E>, stride_span<E>, stride_span<const E>, memory_view<E>, const_memory_view<E>>;
template <class E> using Owners = List<std::vector<E>, const std::vector<E>, std::array<E, 3>, const std::array<E, 3>, E[3], const E[3], pod_vector<E>, const pod_vector<E>, small_vector<E, 3>, const small_vector<E, 3>, static_vector<E, 3>, const static_vector<E, 3>>;
template <class L, class... To> void convt(Trace& t, List<To...>, L l) { int d[] = {(convs<To>(t, l), 0)...}; (void)d; }
template <class A, class B> void pair(Trace& t) { convt(t, Targets<A>(), Targets<B>()); convt(t, Targets<A>(), Owners<B>()); }
template <class A> void pairs(Trace& t) { pair<A, int>(t); pair<A, unsigned>(t); pair<A, Base>(t); pair<A, Derived>(t); }

// what make_span gives
template <class F, class = void> struct Made { static std::string row() { return "{\"k\":\"none\",\"e\":0,\"w\":false,\"t\":false}"; } };
template <class F> struct Made<F, decltype(void(make_span(std::declval<F>())))> { static std::string row() { return desc<decltype(make_span(std::declval<F>()))>(false); } };
template <class F> void make1(Trace& t) {
    t.ev(Rec().str("op", "make").raw("f", desc<F>(false)).raw("m", Made<F&>::row()));
    if (!std::is_array<F>::value && !std::is_const<F>::value) t.ev(Rec().str("op", "make").raw("f", desc<F>(true)).raw("m", Made<F&&>::row()));
}
template <class... F> void makes(Trace& t, List<F...>) { int d[] = {(make1<F>(t), 0)...}; (void)d; }

// ------------------------------------------------------------------ special members
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) noexcept {} MoveOnly& operator=(MoveOnly&&) noexcept { return *this; } bool operator<(const MoveOnly&) const { return false; } };
template <bool C, bool A> struct Half { Half() {} Half(const Half&) {} Half(Half&&) noexcept(C) {} Half& operator=(const Half&) { return *this; } Half& operator=(Half&&) noexcept(A) { return *this; } bool operator<(const Half&) const { return false; } };
using HalfC = Half<true, false>; using HalfA = Half<false, true>;
struct Throwing { Throwing() {} Throwing(const Throwing&) {} Throwing(Throwing&&) noexcept(false) {} Throwing& operator=(const Throwing&) { return *this; } Throwing& operator=(Throwing&&) noexcept(false) { return *this; } bool operator<(const Throwing&) const { return false; } };
template <class X> void mem(Trace& t, const char* kind, const char* name, bool copies, bool nothrow, bool nothrow_assign) {
    using namespace std;
    t.ev(Rec().str("op", "mem").str("k", kind).str("x", name).b("ec", copies).b("en", nothrow).b("ea", nothrow_assign)
         .b("cc", is_copy_constructible<X>::value).b("ca", is_copy_assignable<X>::value).b("mc", is_move_constructible<X>::value).b("ma", is_move_assignable<X>::value)
         .b("nc", is_nothrow_move_constructible<X>::value).b("na", is_nothrow_move_assignable<X>::value).b("nd", is_nothrow_destructible<X>::value));
}
#define MEM(K, C, N, ...) mem<__VA_ARGS__>(t, K, #__VA_ARGS__, C, N, N);
#define MEM2(K, C, N, A, ...) mem<__VA_ARGS__>(t, K, #__VA_ARGS__, C, N, A);
template <class V> using DM = data_mutex<V, std::mutex>;
static void members(Trace& t) {
    using S = std::string;
    MEM("value", true, true, small_vector<int>) MEM("value", true, true, small_vector<S, 2>) MEM("value", true, true, small_vector<S, 5, 3>) MEM("value", false, true, small_vector<MoveOnly, 2>) MEM("value", true, false, small_vector<Throwing, 2>)
    MEM("inline", true, true, static_vector<int, 3>) MEM("inline", true, true, static_vector<S, 3>) MEM("inline", false, true, static_vector<MoveOnly, 3>) MEM("inline", true, false, static_vector<Throwing, 3>)
    MEM2("value", true, true, false, small_vector<HalfC, 2>) MEM2("value", true, false, true, small_vector<HalfA, 2>) MEM2("inline", true, true, false, static_vector<HalfC, 3>) MEM2("inline", true, false, true, static_vector<HalfA, 3>)
    MEM2("value", true, true, false, flat_set<HalfC>) 
    MEM("value", true, true, pod_vector<int>) MEM("value", true, true, pod_vector<char>) MEM("value", true, true, flat_map<S, S>) MEM("value", true, true, flat_map<int, Throwing>) MEM("value", true, true, flat_set<S>) MEM("value", true, true, flat_set<int>)
    MEM("value", true, true, flat_map<int, int, std::less<int>, small_vector<std::pair<int, int>>>) MEM("value", true, true, flat_map<int, int, std::less<int>, static_vector<std::pair<int, int>, 4>>)
    MEM("value", true, true, dynamic_bitset<>) MEM("value", true, true, dynamic_bitset<small_vector<uint8_t>>) MEM("value", true, true, any<>)
    MEM("view", true, true, span<int>) MEM("view", true, true, span<const S>) MEM("view", true, true, stride_span<int>) MEM("view", true, true, stride_span<const S>) MEM("view", true, true, poly_span<int&>) MEM("view", true, true, poly_span<int>)
    MEM("view", true, true, memory_view<int>) MEM("view", true, true, const_memory_view<S>)
    MEM("unique", true, true, expected<int, int>) MEM("unique", true, true, expected<S, S>) MEM("unique", false, true, expected<MoveOnly, S>) MEM("unique", false, true, expected<S, MoveOnly>) MEM("unique", true, true, expected<void, S>) MEM("unique", true, true, expected<int&, S>)
    MEM("unique", true, true, ufunction<void()>) MEM("unique", true, true, ufunction<S(int, S)>)
    using LK = decltype(std::declval<DM<int>&>().unique_lock()); using SM = data_mutex<int, std::shared_timed_mutex>; using SL = decltype(std::declval<SM&>().shared_lock());
    MEM("guard", true, true, LK) MEM("guard", true, true, SL)
    MEM("pinned", true, true, strong_try_rec_mutex) MEM("pinned", true, true, DM<int>) MEM("pinned", true, true, DM<S>) MEM("pinned", true, true, atomic_shared_ptr_storage<int>)
#if __cplusplus >= 202002L
    MEM("value", true, true, transparent_umap<S, int>)
    MEM("unique", true, true, generator<int>) MEM("unique", true, true, generator<int&>) MEM("unique", true, true, generator<S>)
#endif
}

// ------------------------------------------------------------------ what doesn't happen by itself
template <class X> void toBool(Trace& t, const char* n) { t.ev(Rec().str("op", "truth").str("x", n).b("i", std::is_convertible<X, bool>::value || std::is_convertible<X, int>::value).b("c", std::is_constructible<bool, const X&>::value)); }
template <class X> void fromCount(Trace& t, const char* n) { t.ev(Rec().str("op", "count").str("x", n).b("i", std::is_convertible<size_t, X>::value || std::is_convertible<int, X>::value).b("c", std::is_constructible<X, size_t>::value)); }
static void implicits(Trace& t) {
#define TB(...) toBool<__VA_ARGS__>(t, #__VA_ARGS__);
    TB(span<int>) TB(span<const char>) TB(stride_span<int>) TB(poly_span<int&>) TB(memory_view<int>) TB(const_memory_view<int>) TB(expected<int, int>) TB(expected<std::string, int>) TB(expected<void, int>) TB(expected<int&, int>) TB(ufunction<void()>) TB(ufunction<int(int)>)
#define FC(...) fromCount<__VA_ARGS__>(t, #__VA_ARGS__);
    FC(small_vector<std::string>) FC(small_vector<int, 2>) FC(static_vector<int, 4>) FC(static_vector<std::string, 4>) FC(pod_vector<int>) FC(pod_vector<char>) FC(dynamic_bitset<>)
}

// ------------------------------------------------------------------ access
template <class R> constexpr bool writable() { return std::is_lvalue_reference<R>::value && !std::is_const<typename std::remove_reference<R>::type>::value; }
template <class X, class F> void acc(Trace& t, const char* k, bool w, const char* path, F) {
    using R = decltype(std::declval<F>()(std::declval<X&>()));
    t.ev(Rec().str("op", "acc").str("k", k).b("ew", w).b("oc", std::is_const<X>::value).str("p", path).b("w", writable<R>()));
}
#define PATH(NAME, EXPR) acc<X>(t, k, w, NAME, [](auto& x) -> decltype((EXPR)) { return (EXPR); });
template <class X> void elems(Trace& t, const char* k, bool w) {
    PATH("index", x[0]) PATH("at", x.at(0)) PATH("front", x.front()) PATH("back", x.back()) PATH("begin", *x.begin()) PATH("rbegin", *x.rbegin())
}
template <class X> void datas(Trace& t, const char* k, bool w) { PATH("data", *x.data()) }
template <class X> void consts(Trace& t, bool w) {
    const char* k = "never"; w = false;
    PATH("cbegin", *x.cbegin()) PATH("crbegin", *x.crbegin())
}
template <class X> void vec(Trace& t) { elems<X>(t, "owner", true); elems<const X>(t, "owner", true); datas<X>(t, "owner", true); datas<const X>(t, "owner", true); consts<X>(t, true); consts<const X>(t, true); }
template <class X> void umap(Trace& t) { const char* k = "owner"; const bool w = true; PATH("find", x.find(1)->second) PATH("at", x.at(1)) PATH("begin", x.begin()->second) PATH("rbegin", x.rbegin()->second) PATH("lower", x.lower_bound(1)->second) PATH("last", std::prev(x.end())->second) }
template <class X> void uset(Trace& t) { const char* k = "never"; const bool w = false; PATH("find", *x.find(1)) PATH("begin", *x.begin()) PATH("rbegin", *x.rbegin()) PATH("lower", *x.lower_bound(1)) PATH("last", *std::prev(x.end())) }
template <class X> void exp(Trace& t) { const char* k = "owner"; const bool w = true; PATH("value", x.value()) PATH("star", *x) PATH("arrow", *x.operator->()) PATH("error", x.error()) }
static void accesses(Trace& t) {
    vec<small_vector<int>>(t); vec<small_vector<std::string, 2>>(t); vec<static_vector<int, 3>>(t); vec<static_vector<std::string, 3>>(t); vec<pod_vector<int>>(t);
    elems<span<int>>(t, "span", true); elems<const span<int>>(t, "span", true); elems<span<const int>>(t, "span", false); elems<const span<const int>>(t, "span", false);
    datas<span<int>>(t, "span", true); datas<const span<int>>(t, "span", true); datas<span<const int>>(t, "span", false); datas<const span<const int>>(t, "span", false);
    elems<stride_span<int>>(t, "owner", true); elems<const stride_span<int>>(t, "owner", true); elems<stride_span<const int>>(t, "owner", false); elems<const stride_span<const int>>(t, "owner", false);
    elems<memory_view<int>>(t, "owner", true); elems<const memory_view<int>>(t, "owner", true); elems<const_memory_view<int>>(t, "owner", false); elems<const const_memory_view<int>>(t, "owner", false);
    datas<memory_view<int>>(t, "owner", true); datas<const memory_view<int>>(t, "owner", true); datas<const_memory_view<int>>(t, "owner", false);
    consts<memory_view<int>>(t, true); consts<const_memory_view<int>>(t, true); consts<span<const int>>(t, true);
    umap<flat_map<int, int>>(t); umap<const flat_map<int, int>>(t); uset<const flat_set<int>>(t);
    exp<expected<int, int>>(t); exp<const expected<int, int>>(t); exp<expected<std::string, int>>(t); exp<const expected<std::string, int>>(t);
}

// ------------------------------------------------------------------ growing a vector of them
struct Tally { static int& copies() { static int c = 0; return c; } int v = 0; Tally() {} Tally(int i) : v(i) {} Tally(const Tally& o) : v(o.v) { ++copies(); } Tally(Tally&& o) noexcept : v(o.v) {} Tally& operator=(const Tally& o) { v = o.v; ++copies(); return *this; } Tally& operator=(Tally&& o) noexcept { v = o.v; return *this; } bool operator<(const Tally& o) const { return v < o.v; } };
template <class X, class Mk, class Rd> void grow(Trace& t, const char* n, Mk mk, Rd rd) {
    std::vector<X> v;
    int copies = 0; bool kept = true;
    for (int i = 0; i < 9; ++i) {
        X x = mk(i + 1);
        Tally::copies() = 0;
        v.push_back(std::move(x));
        copies += Tally::copies();
        for (int k = 0; k <= i; ++k) kept = kept && rd(v[size_t(k)]) == k + 1;
    }
    Tally::copies() = 0; std::swap(v[0], v[5]); copies += Tally::copies();
    kept = kept && rd(v[0]) == 6 && rd(v[5]) == 1;
    t.ev(Rec().str("op", "grow").str("x", n).num("copies", copies).b("kept", kept));
}
static void grows(Trace& t) {
    grow<small_vector<Tally, 2>>(t, "small in place", [](int i) { small_vector<Tally, 2> v; v.emplace_back(i); return v; }, [](auto& v) { return v[0].v; });
    grow<small_vector<Tally, 1>>(t, "small in memory", [](int i) { small_vector<Tally, 1> v; v.emplace_back(i); v.emplace_back(i); return v; }, [](auto& v) { return v[1].v; });
    grow<static_vector<Tally, 3>>(t, "static", [](int i) { static_vector<Tally, 3> v; v.emplace_back(i); return v; }, [](auto& v) { return v[0].v; });
    grow<flat_map<int, Tally>>(t, "flat_map", [](int i) { flat_map<int, Tally> v; v[i].v = i; return v; }, [](auto& v) { return v.begin()->second.v; });
    grow<flat_set<Tally>>(t, "flat_set", [](int i) { flat_set<Tally> v; v.emplace(i); return v; }, [](auto& v) { return v.begin()->v; });
    grow<expected<Tally, std::string>>(t, "expected", [](int i) { return expected<Tally, std::string>(Tally(i)); }, [](auto& v) { return v.value().v; });
    grow<expected<std::string, Tally>>(t, "unexpected", [](int i) -> expected<std::string, Tally> { return unexpected(Tally(i)); }, [](auto& v) { return v.error().v; });
    grow<any<>>(t, "any", [](int i) { any<> a; a.emplace<Tally>(i); return a; }, [](auto& v) { return any_cast<Tally&>(v).v; });
    grow<ufunction<int()>>(t, "ufunction", [](int i) { Tally x(i); return ufunction<int()>([y = std::move(x)] { return y.v; }); }, [](auto& v) { return v(); });
    grow<dynamic_bitset<>>(t, "bitset", [](int i) { dynamic_bitset<> b; for (int k = 0; k < 70; ++k) b.push_back(k == i); return b; }, [](auto& b) { for (int k = 0; k < 70; ++k) if (b.test(size_t(k))) return k; return -1; });
}

static Reg r1("types", [](const Script& s) {
    Trace t(s.id, Rec().str("kind", "types"));
    for (auto& o : s.ops) {
        if (o.name == "mem") members(t);
        else if (o.name == "conv") { if (o.arg(0) == 0) pairs<int>(t); else if (o.arg(0) == 1) pairs<unsigned>(t); else if (o.arg(0) == 2) pairs<Base>(t); else pairs<Derived>(t); }
        else if (o.name == "make") { makes(t, Owners<int>()); makes(t, Owners<Derived>()); }
        else if (o.name == "impl") implicits(t);
        else if (o.name == "acc") accesses(t);
        else if (o.name == "grow") grows(t);
    }
});
int main(int c, char** v) { return drive(c, v, 20); }
