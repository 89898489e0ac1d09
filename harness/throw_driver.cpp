// Driver for throw_ex. An op is a use: exception type, shape, and tokens to stream (kind, variant, number of arguments, arguments).
#include "vh.hpp"
#include <itlib/throw_ex.hpp>
#include <iomanip>
#include <typeinfo>
#if __cplusplus >= 201700
#include <string_view>
#endif
using namespace vh;
static int made, live, copies; static std::vector<int>* reads;
struct User { long v; size_t i; User(long x, size_t k) : v(x), i(k) {} User(const User& u) : v(u.v), i(u.i) { ++copies; } User& operator=(const User&) = delete; };
static std::ostream& operator<<(std::ostream& o, const User& u) { ++(*reads)[u.i]; o << '<' << int(u.v); return o << '>'; }
struct Ex : std::exception { std::string m; explicit Ex(const std::string& s) : m(s) { ++made; ++live; } Ex(const Ex& o) : m(o.m) { ++live; } ~Ex() override { --live; } const char* what() const noexcept override { return m.c_str(); } };
struct DerEx : Ex { using Ex::Ex; };
struct NonStd { std::string m; NonStd(std::string s) : m(std::move(s)) { ++made; ++live; } NonStd(const NonStd& o) : m(o.m) { ++live; } ~NonStd() { --live; } };
struct RefRef { std::string m; explicit RefRef(std::string&& s) : m(std::move(s)) { ++made; ++live; } explicit RefRef(const std::string& s) : m(s) { ++made; ++live; } RefRef(RefRef&& o) : m(std::move(o.m)) { ++live; } RefRef(const RefRef& o) : m(o.m) { ++live; } ~RefRef() { --live; } };
static std::string msg(const std::exception& e) { return e.what(); }
static std::string msg(const Ex& e) { return e.m; }
static std::string msg(const NonStd& e) { return e.m; }
static std::string msg(const RefRef& e) { return e.m; }
static std::string msg(const std::string& e) { return e; }
template <class E> struct Counted { static const bool v = std::is_base_of<Ex, E>::value || std::is_same<E, NonStd>::value || std::is_same<E, RefRef>::value; };
static const char* KIND[] = {"int", "bool", "chr", "str", "user", "dbl", "setw", "setfill", "hex", "dec", "oct", "boolalpha", "noboolalpha", "left", "right", "internal", "showpos", "noshowpos", "uppercase", "showbase"};
struct Tok { int kind, var; std::vector<long> a; size_t ui = 0; std::string s() const { std::string r; for (long c : a) r += char((unsigned char)c); return r; } };
enum Color { red = 0, green = 1 };
// calls f with the token as a value of its type
template <class F> void as(const Tok& k, F&& f) {
    long v = k.a.empty() ? 0 : k.a[0]; std::string s;
    switch (k.kind) {
    case 0: switch (k.var) { case 0: f(int(v)); return; case 1: f(short(v)); return; case 2: f((long long)v); return; case 3: if (v == 1) { f(green); return; } f(long(v)); return; default: { int x = int(v); f(x); return; } }
    case 1: f(v != 0); return;
    case 2: if (k.var == 0) f(char(v)); else if (k.var == 1) f((signed char)(v)); else f((unsigned char)(v)); return;
    case 3: s = k.s(); switch (k.var) { case 0: f(s.c_str()); return; case 1: f(s); return; case 2: f(&s[0]); return; case 3: { char b[8] = {0}; if (s.size() < 8) { std::memcpy(b, s.data(), s.size()); f(b); return; } f(static_cast<const std::string&>(s)); return; }
#if __cplusplus >= 201700
        case 4: f(std::string_view(s)); return;
#endif
        default: f(std::string(s)); return; }
    case 4: { User u(v, k.ui); f(u); return; }
    case 5: if (k.var == 0) f(double(v) / 4); else if (k.var == 1) f(float(v) / 4); else f((long double)(v) / 4); return;
    case 6: f(std::setw(int(v))); return;
    case 7: f(std::setfill(char(v))); return;
    case 8: f(std::hex); return; case 9: f(std::dec); return; case 10: f(std::oct); return; case 11: f(std::boolalpha); return; case 12: f(std::noboolalpha); return;
    case 13: f(std::left); return; case 14: f(std::right); return; case 15: f(std::internal); return; case 16: f(std::showpos); return; case 17: f(std::noshowpos); return; case 18: f(std::uppercase); return; case 19: f(std::showbase); return;
    }
    _exit(3);
}
static bool marked; static int mark() { marked = true; return 0; }
static void use(int, int) {}
template <class E> struct Put { itlib::throw_ex<E>& t; template <class V> void operator()(V&& v) { itlib::throw_ex<E>& r = (t << v); if (&r != &t) _exit(3); } };
template <class E> int apply(itlib::throw_ex<E>&& t, const std::vector<Tok>& ks) { for (auto& k : ks) as(k, Put<E>{t}); return 0; }
template <class E, class A> struct Second { const A& a; template <class B> void operator()(B&& b) const { use((itlib::throw_ex<E>() << a << b, 0), mark()); } };
template <class E> struct First { const Tok& k2; template <class A> void operator()(A&& a) const { typedef typename std::remove_reference<A>::type T; as(k2, Second<E, T>{a}); } };
template <class E> struct Only { template <class A> void operator()(A&& a) const { use((itlib::throw_ex<E>() << a, 0), mark()); } };
template <class E> typename std::enable_if<std::is_same<E, std::runtime_error>::value>::type chain(const std::vector<Tok>& ks) { if (ks.size() == 1) as(ks[0], Only<E>{}); else as(ks[0], First<E>{ks[1]}); }
template <class E> typename std::enable_if<!std::is_same<E, std::runtime_error>::value>::type chain(const std::vector<Tok>& ks) { as(ks[0], Only<E>{}); }
static int flying() {
#if __cplusplus >= 201700
    return std::uncaught_exceptions();
#else
    return std::uncaught_exception();
#endif
}
template <class E> void once(const char* type, int shape, const std::vector<Tok>& ks, const std::string& toks, size_t users, Trace& tr) {
    std::vector<int> rd(users, 0); reads = &rd; made = 0; copies = 0; marked = false; std::string caught, m; int before = flying();
    if (shape == 2 && (ks.empty() || ks.size() > 2 || (ks.size() == 2 && !std::is_same<E, std::runtime_error>::value))) shape = 0;
    try {
        if (shape == 0) use(apply(itlib::throw_ex<E>(), ks), mark());
        else if (shape == 1) { itlib::throw_ex<E> t; for (auto& k : ks) as(k, Put<E>{t}); mark(); }
        else { chain<E>(ks); }
    } catch (const E& e) { caught = typeid(e) == typeid(E) ? type : "derived"; m = msg(e); } catch (const std::exception& e) { caught = std::string("std:") + e.what(); } catch (...) { caught = "other"; }
    std::vector<int> mc; for (unsigned char c : m) mc.push_back(c);
    Rec r; r.str("op", "throw").str("type", type).str("caught", caught).num("shape", shape).raw("toks", toks).arr("msg", mc).num("made", Counted<E>::v ? made : 1).b("marked", marked).arr("reads", rd).num("copies", copies).num("before", before).num("flying", flying()); tr.ev(r);
}
template <class F> void ctx(const char* s, F&& f) {
    struct G { const char* s; F& f; ~G() { try { ctx(s, f); } catch (...) { _exit(3); } } };
    if (*s == 'D') { try { G g{s + 1, f}; (void)g; throw 7; } catch (int) {} }
    else if (*s == 'C') { try { throw 8; } catch (int) { ctx(s + 1, f); } }
    else if (*s == 'T') { try { ctx(s + 1, f); } catch (int) { _exit(3); } }
    else f();
}
static void run(const Script& s) {
    Rec c; c.str("name", s.cfg); Trace tr(s.id, c); live = 0;
    std::function<void()> all = [&] {
        for (auto& o : s.ops) {
            std::vector<Tok> ks; std::string toks = "["; size_t users = 0;
            for (size_t i = 2; i + 2 < o.a.size();) { Tok k; k.kind = int(o.a[i]); k.var = int(o.a[i + 1]); size_t n = size_t(o.a[i + 2]); k.a.assign(o.a.begin() + long(i) + 3, o.a.begin() + long(i + 3 + n)); i += 3 + n; if (k.kind == 4) k.ui = users++;
                if (toks.size() > 1) toks += ","; toks += "[\""; toks += KIND[k.kind]; toks += "\""; for (long v : k.a) toks += "," + std::to_string(v); toks += "]"; ks.push_back(k); }
            toks += "]"; int sh = int(o.arg(1));
            switch (o.arg(0)) {
            case 0: once<std::runtime_error>("runtime_error", sh, ks, toks, users, tr); break;
            case 1: once<std::logic_error>("logic_error", sh, ks, toks, users, tr); break;
            case 2: once<std::out_of_range>("out_of_range", sh, ks, toks, users, tr); break;
            case 3: once<Ex>("Ex", sh, ks, toks, users, tr); break;
            case 4: once<DerEx>("DerEx", sh, ks, toks, users, tr); break;
            case 5: once<NonStd>("NonStd", sh, ks, toks, users, tr); break;
            case 6: once<std::string>("string", sh, ks, toks, users, tr); break;
            case 7: once<RefRef>("RefRef", sh, ks, toks, users, tr); break;
            default: _exit(3);
            }
        }
    };
    ctx(s.cfg.c_str() + 1, all);
    Rec r; r.str("op", "done").num("live", live); tr.ev(r);
}
static bool regs() { const char* L = "TCD"; for (int n = 0; n <= 4; ++n) { int m = 1; for (int i = 0; i < n; ++i) m *= 3; for (int k = 0; k < m; ++k) { std::string s = "x"; for (int i = 0, q = k; i < n; ++i, q /= 3) s += L[q % 3]; runners()[s] = run; } } return true; }
static bool done = regs();
int main(int c, char** v) { return drive(c, v, 20); }
