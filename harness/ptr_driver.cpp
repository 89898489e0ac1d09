// Driver for make_ptr and shared_from: strong and weak pointers in slots, objects in a ledger.
#include "vh.hpp"
#include <array>
#include <itlib/make_ptr.hpp>
#include <itlib/shared_from.hpp>
using namespace vh;

struct Obj { // in the ledger
    int v; int field = 0;
    void ev(int k) const { auto s = mem().slot(this, k == 1, k == 2); mem().emit({k, s.first, s.second}); }
    explicit Obj(int x) : v(x) { ev(1); }
    Obj(const Obj& o) : v((mem().maybe_throw(), o.ev(4), o.v)) { ev(1); }
    Obj(Obj&& o) : v((mem().maybe_throw(), o.ev(4), o.v)) { o.v = MOVED; ev(1); }
    Obj& operator=(const Obj&) = delete;
    virtual ~Obj() { ev(2); v = -99; }
};
struct MoveOnly : Obj { std::unique_ptr<int> p; explicit MoveOnly(int x) : Obj(x), p(new int(x)) {} MoveOnly(MoveOnly&& o) : Obj(std::move(o)), p(std::move(o.p)) {} };
struct Other { long z[3]; virtual ~Other() {} };
struct Own : Other, Obj, itlib::enable_shared_from {
    int last = 0;
    explicit Own(int x) : Obj(x) {}
    std::shared_ptr<void> sft() { return shared_from_this(); }
    std::shared_ptr<const void> sft() const { return shared_from_this(); }
    std::weak_ptr<void> wft() { return weak_from_this(); }
    std::weak_ptr<const void> wft() const { return weak_from_this(); }
    template <class T> std::shared_ptr<T> sf(T* p) const { return shared_from(p); }
    template <class T> std::weak_ptr<T> wf(T* p) const { return weak_from(p); }
};
struct Deep : Own { char tail[64]; explicit Deep(int x) : Own(x) {} };
struct Del { void operator()(Own* p) const { delete p; } };
static int outside = 0;

struct Info { std::weak_ptr<void> ref; Obj* obj; Own* own; char* lo; char* hi; };
struct World {
    std::shared_ptr<void> s[3]; std::weak_ptr<void> w[2];
    std::map<int, Info> objs; int serial = 0;
    int who(const std::weak_ptr<void>& p) { for (auto& o : objs) if (!p.owner_before(o.second.ref) && !o.second.ref.owner_before(p)) return o.first; std::weak_ptr<void> none; return !p.owner_before(none) && !none.owner_before(p) ? 0 : -1; }
    int who(const std::shared_ptr<void>& p) { return who(std::weak_ptr<void>(p)); }
    int place(int o, const void* p) {
        if (!p) return 0;
        if (p == &outside) return 3;
        if (o <= 0) return -1;
        auto& i = objs[o]; auto c = (const char*)p;
        return p == i.lo ? 1 : p == &i.obj->field ? 2 : c >= i.lo && c < i.hi ? 4 : -1;
    }
    template <class T> int add(const std::shared_ptr<T>& p, Own* own) {
        auto q = const_cast<typename std::remove_const<T>::type*>(p.get());
        int id = ++serial; objs[id] = Info{std::const_pointer_cast<typename std::remove_const<T>::type>(p), q, own, (char*)q, (char*)q + sizeof(T)};
        return id;
    }
};
static void run(const Script& sc) {
    mem().reset(); Watch::clear();
    Trace tr(sc.id, Rec().num("x", 0));
    long leak;
    {
        World W;
        for (auto& op : sc.ops) {
            const std::string& o = op.name; Rec r; int k = int(op.arg(0)) % 3, j = int(op.arg(1)) % 3, p = int(op.arg(2));
            int wk = k % 2, wj = j % 2;
            r.str("op", o).num("k", (o[0] == 'w' ? wk : k) + 1).num("j", (o == "lock" ? wj : j) + 1).num("p", p);
            std::string ex; bool did = true; int id = 0; long got = 0, arg = 0; bool ok = true;
            Own* own = nullptr; { int i = W.who(W.s[j]); if (i > 0) own = W.objs[i].own; }
            auto at = [&](int q) -> int* { int i = W.who(W.s[j]); return q == 0 ? nullptr : q == 2 && i > 0 ? &W.objs[i].obj->field : &outside; };
            if (o == "mks" || o == "mku") { // from an object: lvalue, constant, rvalue
                int v = p; r.num("v", v);
                mem().fuse = op.arg(3) ? 0 : -1;
                ex = guarded([&] {
                    if (op.arg(1) == 3) { MoveOnly a(v); std::shared_ptr<MoveOnly> n; { Watch w; if (o == "mks") n = itlib::make_shared(std::move(a)); else n = itlib::make_unique(std::move(a)); } arg = a.v; got = n->p ? *n->p : -1; ok = n.use_count() == 1 && !a.p; id = W.add(n, nullptr); W.s[k] = std::move(n); }
                    else if (op.arg(1) == 1) { const Obj a(v); std::shared_ptr<const Obj> n; { Watch w; if (o == "mks") n = itlib::make_shared(a); else n = itlib::make_unique(a); } arg = a.v; got = n->v; ok = n.use_count() == 1 && n.get() != &a; id = W.add(n, nullptr); W.s[k] = std::const_pointer_cast<Obj>(n); }
                    else { Obj a(v); std::shared_ptr<Obj> n; { Watch w; if (op.arg(1) == 0) { if (o == "mks") n = itlib::make_shared(a); else n = itlib::make_unique(a); } else { if (o == "mks") n = itlib::make_shared(std::move(a)); else n = itlib::make_unique(std::move(a)); } } arg = a.v; got = n->v; ok = n.use_count() == 1 && n.get() != &a; id = W.add(n, nullptr); W.s[k] = std::move(n); }
                });
                mem().fuse = -1;
                r.num("q", op.arg(1)).num("fz", op.arg(3));
            } else if (o == "own") {
                int v = p; r.num("q", op.arg(1)).num("v", v); std::shared_ptr<Own> n; std::shared_ptr<Deep> d;
                { Watch w; switch (op.arg(1)) {
                    case 0: n = std::make_shared<Own>(v); break;
                    case 1: n = std::shared_ptr<Own>(new Own(v)); break;
                    case 2: n = std::shared_ptr<Own>(new Own(v), Del()); break;
                    case 3: n = std::unique_ptr<Own>(new Own(v)); break;
                    case 4: n = std::allocate_shared<Own>(std::allocator<Own>(), v); break;
                    case 5: n = std::shared_ptr<Own>(std::unique_ptr<Own>(new Deep(v))); break;
                    default: d = std::make_shared<Deep>(v); n = d; d.reset();
                } }
                got = n->v; id = W.add(n, n.get()); W.objs[id].obj = n.get(); if (op.arg(1) >= 5) W.objs[id].hi = W.objs[id].lo + sizeof(Deep);
                ok = n.use_count() == 1; W.s[k] = std::move(n);
            }
            else if (o == "alias") { Watch w; switch (op.arg(3) % 3) {
                case 0: W.s[k] = itlib::make_aliased(W.s[j], at(p)); break;
                case 1: { std::shared_ptr<const void> c = W.s[j]; std::shared_ptr<const int> n = itlib::make_aliased(c, const_cast<const int*>(at(p))); c.reset(); W.s[k] = std::const_pointer_cast<int>(n); break; }
                default: { std::shared_ptr<int> c(W.s[j], at(3)); std::shared_ptr<void> n = itlib::make_aliased(c, static_cast<void*>(at(p))); c.reset(); W.s[k] = n; }
            } }
            else if (o == "raw") W.s[k] = std::shared_ptr<void>(W.s[j], p ? &outside : nullptr);      // what the standard library allows: a pointer without an owner, an owner without a pointer
            else if (o == "copy") W.s[k] = W.s[j];
            else if (o == "move") W.s[k] = std::move(W.s[j]);
            else if (o == "reset") W.s[k].reset();
            else if (o == "sft") { did = own; if (did) { Watch w; W.s[k] = p ? std::const_pointer_cast<void>(const_cast<const Own*>(own)->sft()) : own->sft(); } }
            else if (o == "sf") { did = own; if (did) { Watch w; if (p == 1) W.s[k] = own->sf(own); else if (op.arg(3)) { std::shared_ptr<const int> c = const_cast<const Own*>(own)->sf(const_cast<const int*>(at(p))); W.s[k] = std::const_pointer_cast<int>(c); } else W.s[k] = own->sf(at(p)); } }
            else if (o == "wft") { did = own; if (did) { Watch w; if (p) { std::weak_ptr<const void> c = const_cast<const Own*>(own)->wft(); W.w[wk] = std::const_pointer_cast<void>(c.lock()); } else W.w[wk] = own->wft(); } }
            else if (o == "wf") { did = own; if (did) { Watch w; if (p == 1) W.w[wk] = own->wf(own); else W.w[wk] = own->wf(at(p)); } }
            else if (o == "lock") W.s[k] = W.w[wj].lock();
            else if (o == "wreset") W.w[wk].reset();
            else if (o == "none") { // an object which nothing owns
                Own x(1); 
                try { auto q = x.sft(); ex += "s"; } catch (const std::bad_weak_ptr&) { ex += "b"; }
                try { auto q = x.sf(&x.last); ex += "s"; } catch (const std::bad_weak_ptr&) { ex += "b"; }
                try { auto q = x.wft(); ex += q.expired() ? "b" : "s"; } catch (const std::bad_weak_ptr&) { ex += "b"; }
            }
            else if (o == "misc") {
                std::vector<long> g; int v = p; r.num("v", v);
                { auto a = itlib::make_shared(v); static_assert(std::is_same<decltype(a), std::shared_ptr<int>>::value, ""); g.push_back(*a + a.use_count()); }
                { const long c = v; auto a = itlib::make_unique(c); static_assert(std::is_same<decltype(a), std::unique_ptr<const long>>::value, ""); g.push_back(*a); }
                { std::string t(size_t(30 + v % 50), 'x'); const char* d = t.data(); auto a = itlib::make_unique(std::move(t)); static_assert(std::is_same<decltype(a), std::unique_ptr<std::string>>::value, ""); g.push_back(a->data() == d ? long(a->size()) : -1); }
                { std::vector<int> t(5, v); auto a = itlib::make_shared(t); (*a)[0]++; g.push_back(long(t[0]) * 1 + (*a)[0]); }
                { auto a = itlib::make_unique(std::unique_ptr<int>(new int(v))); g.push_back(**a); }
                { std::array<int, 3> t = {{v, v, v}}; auto a = itlib::make_shared(t); static_assert(std::is_same<decltype(a), std::shared_ptr<std::array<int, 3>>>::value, ""); t[1] = 0; g.push_back((*a)[1]); }
                r.arr("got3", g);
            }
            // objects which are gone and which no weak pointer remembers
            std::string S = "[", WW = "[", AL = "[";
            for (int q = 0; q < 3; ++q) { int i = W.who(W.s[q]); S += (q ? ",[" : "[") + std::to_string(i) + "," + std::to_string(W.place(i, W.s[q].get())) + "," + std::to_string(W.s[q].use_count()) + "]"; }
            for (int q = 0; q < 2; ++q) { int i = W.who(W.w[q]); WW += (q ? ",[" : "[") + std::to_string(i) + "," + std::to_string(W.w[q].expired() ? 1 : 0) + "]"; }
            for (auto& i : W.objs) if (!i.second.ref.expired()) AL += (AL.size() > 1 ? "," : "") + std::to_string(i.first);
            { bool again = true; while (again) { again = false; for (auto i = W.objs.begin(); i != W.objs.end(); ++i) if (i->second.ref.expired() && W.who(W.w[0]) != i->first && W.who(W.w[1]) != i->first) { W.objs.erase(i); again = true; break; } } }
            tr.ev(r.b("did", did).str("ex", ex).num("id", id).num("got", got).num("arg", arg).b("ok", ok).raw("s", S + "]").raw("w", WW + "]").raw("al", AL + "]").raw("mem", mem().drain()));
        }
        for (auto& x : W.s) x.reset();
        for (auto& x : W.w) x.reset();
        W.objs.clear();
        leak = Watch::count();
    }
    tr.ev(Rec().str("op", "end").num("leak", leak).raw("mem", mem().drain()));
}
static Reg reg("ptr", run);
int main(int c, char** v) { return drive(c, v); }
