// Driver for time_t. 64-bit numbers are recorded as sign and limbs of four digits.
#include "vh.hpp"
#include <itlib/time_t.hpp>
#include <thread>
#include <atomic>
#include <set>
using namespace vh;
using T = itlib::time_t;
using i64 = long long;
static std::string big(i64 v) { std::string s = v < 0 ? "[-1,[" : "[1,["; unsigned long long u = v < 0 ? 0ull - (unsigned long long)v : (unsigned long long)v; bool f = true; while (u) { if (!f) s += ","; f = false; s += std::to_string(u % 10000); u /= 10000; } return s + "]]"; }
static std::string tmj(const std::tm& m) { Rec r; r.num("sec", m.tm_sec).num("min", m.tm_min).num("hour", m.tm_hour).num("mday", m.tm_mday).num("mon", m.tm_mon).num("year", m.tm_year).num("wday", m.tm_wday).num("yday", m.tm_yday).num("isdst", m.tm_isdst); return r.obj(); }
static std::tm fields(const Op& o) { std::tm m; std::memset(&m, 0, sizeof m); m.tm_sec = int(o.arg(0)); m.tm_min = int(o.arg(1)); m.tm_hour = int(o.arg(2)); m.tm_mday = int(o.arg(3)); m.tm_mon = int(o.arg(4)); m.tm_year = int(o.arg(5)); m.tm_wday = int(o.arg(6)); m.tm_yday = int(o.arg(7)); m.tm_isdst = int(o.arg(8)); return m; }
static std::string list(std::initializer_list<i64> l) { std::string s = "["; for (auto x : l) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
template <class D> static Rec arith(const char* op, T& t, D d, const std::string& num, const std::string& den, i64 k) {
    Rec r; r.str("op", op).raw("old", big(t.seconds_since_epoch())).raw("num", num).raw("den", den).raw("k", big(k)); bool self = true; const T ct = t; std::string o = op;
    if (o == "add") { T x = ct + d; self = ct == t; t = x; } else if (o == "sub") { T x = ct - d; self = ct == t; t = x; }
    else if (o == "add=") { T& x = (t += d); self = &x == &t; } else { T& x = (t -= d); self = &x == &t; }
    return r.raw("v", big(t.seconds_since_epoch())).b("self", self);
}
template <class Rep, i64 N, i64 D> using du = std::chrono::duration<Rep, std::ratio<N, D>>;
static bool dur(const char* op, T& t, long u, i64 k, Rec& r) {
    using namespace std::chrono;
    switch (u) {
    case 0: r = arith(op, t, seconds(k), "[]", "[]", k); break;
    case 1: r = arith(op, t, nanoseconds(k), "[]", list({10000, 10000, 10}), k); break;
    case 2: r = arith(op, t, microseconds(k), "[]", list({10000, 100}), k); break;
    case 3: r = arith(op, t, milliseconds(k), "[]", list({1000}), k); break;
    case 4: r = arith(op, t, minutes(k), list({60}), "[]", k); break;
    case 5: r = arith(op, t, hours(k), list({3600}), "[]", k); break;
    case 6: r = arith(op, t, du<int, 86400, 1>(int(k)), list({86400}), "[]", k); break;
    case 7: r = arith(op, t, du<i64, 604800, 1>(k), list({6048, 100}), "[]", k); break;
    case 8: r = arith(op, t, du<int, 7, 3>(int(k)), list({7}), list({3}), k); break;
    case 9: r = arith(op, t, du<double, 1, 1>(double(k) / 8), "[]", list({8}), k); break;
    case 10: r = arith(op, t, du<double, 60, 1>(double(k) / 16), list({60}), list({16}), k); break;
    case 11: r = arith(op, t, du<float, 1, 4>(float(k)), "[]", list({4}), k); break;
    case 12: r = arith(op, t, du<short, 3600, 1>(short(k)), list({3600}), "[]", k); break;
    case 13: r = arith(op, t, du<unsigned, 1, 1>(unsigned(k)), "[]", "[]", k); break;
    case 14: r = arith(op, t, du<i64, 1, 7>(k), "[]", list({7}), k); break;
    case 15: r = arith(op, t, du<i64, 31556952, 1>(k), list({146097, 216}), "[]", k); break;
    case 16: r = arith(op, t, T::duration_type(k), "[]", "[]", k); break;
    default: return false;
    }
    return true;
}
static void run(const Script& s) {
    const char* tz = "UTC0"; i64 off = 0; bool dst = false;
    if (s.cfg == "east") { tz = "XXX-5:30"; off = 19800; } else if (s.cfg == "west") { tz = "YYY+9:45"; off = -35100; } else if (s.cfg == "ny") { tz = "EST5EDT,M3.2.0,M11.1.0"; off = -18000; dst = true; }
    setenv("TZ", tz, 1); tzset();
    Rec z; z.num("off", off).b("dst", dst); Rec c; c.str("name", s.cfg).raw("zone", z.obj()); Trace tr(s.id, c);
    T t;
    for (auto& o : s.ops) {
        Rec r; r.str("op", o.name);
        if (o.name == "set") { i64 v = o.arg(0); if (o.arg(1) == 0) t = T::from_seconds(v); else if (o.arg(1) == 1) t = T(std::time_t(v)); else { T x = T::from_seconds(v); T y(x); t = y; } r.raw("v", big(v)).raw("sec", big(t.seconds_since_epoch())).raw("std", big(i64(static_cast<std::time_t>(t)))); }
        else if (o.name == "dflt") { t = T(); r.raw("sec", big(t.seconds_since_epoch())).raw("std", big(i64(std::time_t(t)))); }
        else if (o.name == "now") { i64 a = std::time(nullptr); t = T::now(); i64 b = std::time(nullptr); r.raw("lo", big(a)).raw("v", big(t.seconds_since_epoch())).raw("hi", big(b)); }
        else if (o.name == "gm") { const T x = t; std::tm m = x.gmtime(); r.raw("t", big(x.seconds_since_epoch())).raw("tm", tmj(m)); }
        else if (o.name == "loc") { const T x = t; std::tm m = x.localtime(); r.raw("t", big(x.seconds_since_epoch())).raw("tm", tmj(m)); }
        else if (o.name == "mk" || o.name == "mkl") { std::tm m = fields(o); r.raw("f", tmj(m)); t = o.name == "mk" ? T::from_gmtime(m) : T::from_localtime(m); r.raw("v", big(t.seconds_since_epoch())).raw("tm", tmj(m)); }
        else if (o.name == "gmback") { std::tm m = t.gmtime(); std::tm f = m; T u = T::from_gmtime(m); Rec q; q.str("op", "mk").raw("f", tmj(f)).raw("v", big(u.seconds_since_epoch())).raw("tm", tmj(m)); t = u; tr.ev(q); continue; }
        else if (o.name == "locback") { std::tm m = t.localtime(); m.tm_mday += int(o.arg(0)); m.tm_sec += int(o.arg(1)); std::tm f = m; T u = T::from_localtime(m); Rec q; q.str("op", "mkl").raw("f", tmj(f)).raw("v", big(u.seconds_since_epoch())).raw("tm", tmj(m)); t = u; tr.ev(q); continue; }
        else if (o.name == "add" || o.name == "sub" || o.name == "add=" || o.name == "sub=") { if (!dur(o.name.c_str(), t, o.arg(0), o.arg(1), r)) _exit(3); }
        else if (o.name == "cmp") { const T a = t, b = T::from_seconds(o.arg(0)); auto d = a - b; static_assert(std::is_same<decltype(d), T::duration_type>::value, ""); r.raw("b", big(o.arg(0))).raw("d", big(std::chrono::duration_cast<std::chrono::seconds>(d).count())); std::string q = "["; for (bool x : {a == b, a != b, a < b, a <= b, a > b, a >= b}) q += (q.size() > 1 ? "," : "") + std::string(x ? "true" : "false"); r.raw("r", q + "]"); }
        else if (o.name == "fmt") { std::tm m = fields(o); std::string f; std::vector<long> p(o.a.begin() + 9, o.a.end()); for (long x : p) { if (x < 0) { f += '%'; f += char(-x); } else if (x == '%') f += "%%"; else f += char((unsigned char)x); }
            std::unique_ptr<char[]> ex(new char[f.size() + 1]); std::memcpy(ex.get(), f.c_str(), f.size() + 1); const std::tm cm = m; std::string x = itlib::strftime(ex.get(), cm); std::vector<int> tx; for (unsigned char ch : x) tx.push_back(ch); if (x.c_str()[x.size()]) _exit(3); r.arr("pat", p).raw("f", tmj(m)).arr("text", tx); }
        else if (o.name == "mt") { // threads, iterations, times...
            size_t n = size_t(o.arg(0)); std::vector<std::set<std::string>> got(n); std::vector<std::thread> ts; std::atomic<size_t> ready{0};
            for (size_t i = 0; i < n; ++i) ts.emplace_back([&, i] { ++ready; while (ready < n) std::this_thread::yield(); for (long k = 0; k < o.arg(1); ++k) { i64 v = o.a[2 + (i + size_t(k) * n) % (o.a.size() - 2)]; const T x = T::from_seconds(v);
                Rec q; std::tm m; if (k % 3 == 0) { m = x.gmtime(); q.str("w", "gm").raw("tm", tmj(m)); } else if (k % 3 == 1) { m = x.localtime(); q.str("w", "loc").raw("tm", tmj(m)); } else { m = x.gmtime(); m.tm_sec += 100; m.tm_min -= 1; q.str("w", "mk").raw("f", tmj(m)); v = T::from_gmtime(m).seconds_since_epoch(); }
                q.raw("t", big(v)); got[i].insert(q.obj()); } });
            for (auto& x : ts) x.join();
            std::set<std::string> all; for (auto& g : got) all.insert(g.begin(), g.end()); std::string q = "["; for (auto& x : all) q += (q.size() > 1 ? "," : "") + x; r.raw("rs", q + "]");
        } else _exit(3);
        tr.ev(r);
    }
}
static Reg a("utc", run), b("east", run), c("west", run), d("ny", run);
int main(int n, char** v) { return drive(n, v, 60); }
