// Driver for pmr_allocator: allocators over logging resources, requests of every kind, and containers which use them.
#include "vh.hpp"
#include <memory_resource>
#include <itlib/pmr_allocator.hpp>
#include <deque>
#include <list>
#include <set>
#include <unordered_map>
using namespace vh;
template <class T> using PA = itlib::pmr_allocator<T>;
using B = PA<std::byte>;
using Std = std::pmr::polymorphic_allocator<std::byte>;

constexpr size_t D = 1 << 20;
static int next_id() { auto& m = mem(); for (int i = 1;; ++i) { bool used = false; for (auto& b : m.blocks) if (b.id == i) used = true; if (!used) return i; } }
struct Res : std::pmr::memory_resource {
    int id, group; Res(int i, int g) : id(i), group(g) {}
    void* do_allocate(size_t n, size_t a) override {
        auto& m = mem();
        if ((m.afuse >= 0 && m.afuse-- == 0) || n > D * 64) { m.emit({8, 0, long(n / D), long(n % D), long(a), id}); throw std::bad_alloc(); }
        size_t real = a; while (real < sizeof(void*)) real *= 2;
        char* p = static_cast<char*>(::operator new((n ? n : 1) + real * 2, std::align_val_t(real * 2))) + real; // aligned to no more than asked
        { Unwatched u; m.blocks.push_back({p, n ? n : 1, next_id(), 1}); }
        m.emit({5, m.blocks.back().id, long(n / D), long(n % D), long(a), id});
        memset(p, 0xA5, n);
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t a) override {
        auto& m = mem();
        int b = m.remove_block(p);
        m.emit({6, b, long(n / D), long(n % D), long(a), id});
        if (b < 0) return;
        size_t real = a; while (real < sizeof(void*)) real *= 2;
        if (size_t(uintptr_t(p)) % (real * 2) != real) return; // another alignment: the log tells
        ::operator delete(static_cast<char*>(p) - real, std::align_val_t(real * 2));
    }
    bool do_is_equal(const memory_resource& o) const noexcept override { auto r = dynamic_cast<const Res*>(&o); return r && r->group == group; }
};
static Res res[5] = {{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 3}};   // 3 and 4 are equal to each other
static int rid(std::pmr::memory_resource* r) { for (auto& x : res) if (&x == r) return x.id; return -1; }

template <size_t S, size_t A> struct alignas(A) P { char c[S]; };
using O1 = Tr<1>; using O2 = Tr<2, true, 64>; using O3 = Tr<3, false>;
template <class F> void with(long t, F&& f) {
    switch (t) {
        case 1: f((P<1, 1>*)0); break; case 2: f((P<4, 4>*)0); break; case 3: f((P<24, 8>*)0); break; case 4: f((P<64, 64>*)0); break; case 5: f((P<200, 8>*)0); break;
        case 6: f((O1*)0); break; case 7: f((O2*)0); break; default: f((O3*)0);
    }
}
template <class F> void with_obj(long t, F&& f) { switch (t) { case 6: f((O1*)0); break; case 7: f((O2*)0); break; default: f((O3*)0); } }

// ---------------------------------------------------------------- containers
struct Holder {
    virtual ~Holder() {}
    virtual void fill(int n) = 0; virtual void drop() = 0; virtual void clear() = 0;
    virtual Holder* copy() = 0; virtual Holder* copya(const B& a) = 0; virtual Holder* move() = 0; virtual Holder* movea(const B& a) = 0;
    virtual void assign(Holder& o) = 0; virtual void massign(Holder& o) = 0; virtual void swap(Holder& o) = 0;
    virtual int r() = 0; virtual int n() = 0; virtual int inner() = 0;
};
static const char* longs = "a text which does not fit a small string, number ";
using Str = std::basic_string<char, std::char_traits<char>, PA<char>>;
template <class C> struct Fill;
template <class T> struct Fill<std::vector<T, PA<T>>> { static void add(std::vector<T, PA<T>>& c, int v) { c.emplace_back(v); } static int inner(std::vector<T, PA<T>>& c) { return c.empty() ? 0 : in(c.back(), 0); }
    template <class U> static auto in(U& u, int) -> decltype(rid(u.get_allocator().resource())) { return rid(u.get_allocator().resource()); } template <class U> static int in(U&, long) { return 0; } };
template <class T> struct Fill<std::list<T, PA<T>>> { static void add(std::list<T, PA<T>>& c, int v) { c.emplace_front(v); } static int inner(std::list<T, PA<T>>&) { return 0; } };
template <class T> struct Fill<std::deque<T, PA<T>>> { static void add(std::deque<T, PA<T>>& c, int v) { c.emplace_back(v); } static int inner(std::deque<T, PA<T>>&) { return 0; } };
using Map = std::map<int, Str, std::less<int>, PA<std::pair<const int, Str>>>;
template <> struct Fill<Map> { static void add(Map& c, int) { c.emplace(int(c.size()), longs); } static int inner(Map& c) { return c.empty() ? 0 : rid(c.begin()->second.get_allocator().resource()); } };
using UMap = std::unordered_map<int, O1, std::hash<int>, std::equal_to<int>, PA<std::pair<const int, O1>>>;
template <> struct Fill<UMap> { static void add(UMap& c, int v) { c.emplace(int(c.size()), v); } static int inner(UMap&) { return 0; } };
template <> struct Fill<Str> { static void add(Str& c, int v) { c += longs[v % 40]; } static int inner(Str&) { return 0; } };
template <class C> struct H : Holder {
    C c;
    template <class... A> H(A&&... a) : c(std::forward<A>(a)...) {}
    H(H&) = delete;
    void fill(int n) override { for (int i = 0; i < n; ++i) Fill<C>::add(c, i); }
    void drop() override { if (!c.empty()) c.erase(c.begin()); }
    void clear() override { c.clear(); }
    Holder* copy() override { return new H<C>(std::as_const(c)); }
    Holder* copya(const B& a) override { return new H<C>(std::as_const(c), typename C::allocator_type(a)); }
    Holder* move() override { return new H<C>(std::move(c)); }
    Holder* movea(const B& a) override { return new H<C>(std::move(c), typename C::allocator_type(a)); }
    void assign(Holder& o) override { c = std::as_const(static_cast<H<C>&>(o).c); }
    void massign(Holder& o) override { c = std::move(static_cast<H<C>&>(o).c); }
    void swap(Holder& o) override { c.swap(static_cast<H<C>&>(o).c); }
    int r() override { return rid(c.get_allocator().resource()); }
    int n() override { return int(c.size()); }
    int inner() override { return Fill<C>::inner(c); }
};
using VI = std::vector<int, PA<int>>; using VO = std::vector<O1, PA<O1>>; using VV = std::vector<VI, PA<VI>>; using LO = std::list<O1, PA<O1>>; using DO_ = std::deque<O1, PA<O1>>;
template <class F> Holder* mk(int kind, F&& f) {
    switch (kind) { case 0: return f((VI*)0); case 1: return f((VO*)0); case 2: return f((VV*)0); case 3: return f((LO*)0); case 4: return f((DO_*)0); case 5: return f((Map*)0); case 6: return f((UMap*)0); default: return f((Str*)0); }
}

struct Blk { std::string kind; long t; size_t n; void* p; std::shared_ptr<B> al; int id; };

static void run(const Script& sc) {
    mem().reset();
    auto old = std::pmr::set_default_resource(&res[1]);
    mem().buf.clear();
    Trace tr(sc.id, Rec().num("x", 0));
    {
        std::unique_ptr<B> al[3]; for (auto& a : al) a.reset(new B());
        std::vector<Blk> out; std::unique_ptr<Holder> h[3]; int kind[3] = {0, 0, 0};
        auto log = [&](Rec& r) {
            long d[1] = {rid(std::pmr::get_default_resource())}; r.num("def", d[0]);
            r.raw("rs", "[" + std::to_string(rid(al[0]->resource())) + "," + std::to_string(rid(al[1]->resource())) + "," + std::to_string(rid(al[2]->resource())) + "]");
            std::string s = "[", n = "[", in = "[";
            for (int i = 0; i < 3; ++i) { s += (i ? "," : "") + std::to_string(h[i] ? h[i]->r() : 0); n += (i ? "," : "") + std::to_string(h[i] ? h[i]->n() : 0); in += (i ? "," : "") + std::to_string(h[i] ? h[i]->inner() : 0); }
            r.raw("hr", s + "]").raw("hn", n + "]").raw("hi", in + "]").raw("log", mem().drain());
            tr.ev(r);
        };
        auto arm = [&](long fz) { mem().fuse = fz > 0 ? fz - 1 : -1; mem().afuse = fz < 0 ? -fz - 1 : -1; };
        auto done = [&] { mem().fuse = mem().afuse = -1; };
        auto ops = sc.ops;
        for (size_t n = 0; n < ops.size() || !out.empty(); ++n) {
            if (n == ops.size()) ops.push_back(Op{"free", {0, long(n % 3)}});   // nothing is left to itself
            const Op op = ops[n];
            Rec r; const std::string& o = op.name; int k = int(op.arg(0)) % 3, j = int(op.arg(1)) % 3; long fz = 0;
            r.str("op", o).num("k", k + 1).num("j", j + 1);
            std::string ex;
            auto plain = [&](auto&& f, long t, bool over, size_t n, size_t align) {
                arm(fz); void* p = nullptr; ex = guarded([&] { p = f(); }); done();
                r.str("ex", ex).num("fz", fz).b("al", ex != "" || uintptr_t(p) % align == 0).num("t", t);
                if (over) r.raw("c", "[]"); else r.raw("c", "[" + std::to_string(n / D) + "," + std::to_string(n % D) + "]");
                int id = 0;
                if (ex == "" && p) { auto b = mem().find(p); id = b && b->p == p ? b->id : -1; out.push_back({o, t, n, p, std::make_shared<B>(*al[k]), id}); }
                r.num("id", id);
            };
            if (o == "def") { std::pmr::set_default_resource(&res[op.arg(1) % 4 + 1]); r.num("r", op.arg(1) % 4 + 1); }
            else if (o == "c_def") { al[k].reset(new B()); }
            else if (o == "c_res") { r.num("r", op.arg(1) % 4 + 1); al[k].reset(new B(&res[op.arg(1) % 4 + 1])); }
            else if (o == "c_copy") { al[k].reset(op.arg(2) ? new B(std::move(*al[j])) : new B(*al[j])); if (!al[j]) al[j].reset(new B(*al[k])); }
            else if (o == "c_conv") { with(op.arg(2) % 8 + 1, [&](auto* t) { using T = std::remove_pointer_t<decltype(t)>; PA<T> x(*al[j]); const PA<T> y = x; al[k].reset(new B(y)); }); }
            else if (o == "c_std") { Std s(*al[j]); const Std& cs = s; if (op.arg(2)) { PA<int> x = s; al[k].reset(new B(x)); } else { B x = cs; al[k].reset(new B(x)); } }
            else if (o == "c_sel") { al[k].reset(new B(std::allocator_traits<B>::select_on_container_copy_construction(*al[j]))); }
            else if (o == "eq") {
                const B &a = *al[k], &b = *al[j]; PA<int> c(b); Std s(b);
                bool e = a == b; r.num("e", e); r.b("same", (a == c) == e && (a != b) != e && (a != c) != e && (c == a) == e && (a == s) == e && (s == a) == e);
            }
            else if (o == "bytes") {
                size_t n = size_t(op.arg(1)), a = size_t(op.arg(2)); fz = op.arg(3);
                plain([&] { return a ? al[k]->allocate_bytes(n, a) : al[k]->allocate_bytes(n); }, long(a), false, n, a ? a : alignof(std::max_align_t));
            } else if (o == "elems" || o == "objs") {
                with(op.arg(1), [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    long c = op.arg(2); fz = op.arg(3);
                    size_t n = c < 0 ? size_t(-1) / sizeof(T) + size_t(-c) : size_t(c);   // the least counts whose bytes do not fit
                    bool over = c < 0 && sizeof(T) > 1;
                    if (c < 0 && !over) { n = 1; }
                    if (o == "elems") { PA<T> a(*al[k]); plain([&] { return (void*)a.allocate(n); }, op.arg(1), over, n, alignof(T)); }
                    else if (n == 1 && op.arg(4)) plain([&] { return (void*)al[k]->template allocate_object<T>(); }, op.arg(1), over, n, alignof(T));
                    else plain([&] { return (void*)al[k]->template allocate_object<T>(n); }, op.arg(1), over, n, alignof(T));
                });
            } else if (o == "newo") {
                with_obj(op.arg(1), [&](auto* t) {
                    using T = std::remove_pointer_t<decltype(t)>;
                    fz = op.arg(3); int v = int(op.arg(2)); T* p = nullptr;
                    arm(fz); ex = guarded([&] { if constexpr (std::is_same_v<T, O1>) { if (op.arg(4)) { p = al[k]->template new_object<T>(v - 1, 1); return; } } p = al[k]->template new_object<T>(v); }); done();
                    r.str("ex", ex).num("fz", fz).b("al", ex != "" || uintptr_t(p) % alignof(T) == 0).num("t", op.arg(1)).num("v", v).num("got", p ? p->v : 0);
                    int id = 0;
                    if (p) { auto b = mem().find(p); id = b && b->p == (char*)p ? b->id : -1; out.push_back({o, op.arg(1), 1, p, std::make_shared<B>(*al[k]), id}); }
                    r.num("id", id);
                });
            } else if (o == "newv") { // an object which itself uses the allocator
                VI* p = al[k]->new_object<VI>(size_t(5), 7); r.num("got", int(p->size()) * 100 + p->back()).num("in", rid(p->get_allocator().resource())).num("res", rid(al[k]->resource()));
                al[k]->delete_object(p);
            } else if (o == "free") {
                if (out.empty()) r.num("id", 0);
                else {
                    size_t i = size_t(op.arg(0)) % out.size(); Blk b = out[i]; out.erase(out.begin() + long(i));
                    B* other = b.al.get(); for (auto& x : al) if (x->resource() == b.al->resource()) other = x.get();
                    PA<int> conv(*b.al); B cv(conv); B& u = op.arg(1) == 1 ? cv : op.arg(1) == 2 ? *other : *b.al;
                    r.num("id", b.id);
                    if (b.kind == "bytes") { if (b.t) u.deallocate_bytes(b.p, b.n, size_t(b.t)); else u.deallocate_bytes(b.p, b.n); }
                    else if (b.kind == "newo") with_obj(b.t, [&](auto* t) { u.delete_object(static_cast<std::remove_pointer_t<decltype(t)>*>(b.p)); });
                    else with(b.t, [&](auto* t) {
                        using T = std::remove_pointer_t<decltype(t)>;
                        if (b.kind == "elems") { PA<T> e(u); e.deallocate(static_cast<T*>(b.p), b.n); }
                        else if (b.n == 1 && op.arg(1)) u.deallocate_object(static_cast<T*>(b.p)); else u.deallocate_object(static_cast<T*>(b.p), b.n);
                    });
                }
            }
            // containers: slots k, j
            else if (o == "h_new") { h[k].reset(); int q = int(op.arg(2)) % 8; kind[k] = q; r.num("kind", q); h[k].reset(mk(q, [&](auto* t) -> Holder* { using C = std::remove_pointer_t<decltype(t)>; return new H<C>(typename C::allocator_type(*al[j])); })); }
            else if (o[0] == 'h') {
                bool two = o == "h_copy" || o == "h_copya" || o == "h_move" || o == "h_movea" || o == "h_assign" || o == "h_massign" || o == "h_swap";
                bool ctor = o == "h_copy" || o == "h_copya" || o == "h_move" || o == "h_movea";
                bool ok = two ? h[j] && k != j && (ctor || (h[k] && kind[k] == kind[j])) : !!h[k];
                if (o == "h_swap" && ok) ok = res[h[k]->r()].group == res[h[j]->r()].group;
                r.b("did", ok); int q = int(op.arg(2)) % 3; r.num("q", q + 1);
                if (ok) {
                    if (ctor) { h[k].reset(); kind[k] = kind[j]; }
                    if (o == "h_copy") h[k].reset(h[j]->copy()); else if (o == "h_copya") h[k].reset(h[j]->copya(*al[q]));
                    else if (o == "h_move") h[k].reset(h[j]->move()); else if (o == "h_movea") h[k].reset(h[j]->movea(*al[q]));
                    else if (o == "h_assign") h[k]->assign(*h[j]); else if (o == "h_massign") h[k]->massign(*h[j]); else if (o == "h_swap") h[k]->swap(*h[j]);
                    else if (o == "h_fill") h[k]->fill(int(op.arg(1))); else if (o == "h_drop") h[k]->drop(); else if (o == "h_clear") h[k]->clear(); else if (o == "h_del") h[k].reset();
                }
            }
            log(r);
        }
    }
    tr.ev(Rec().str("op", "end").raw("log", mem().drain()));
    std::pmr::set_default_resource(old);
}
static Reg reg("pmr", run);
int main(int c, char** v) { return drive(c, v); }
