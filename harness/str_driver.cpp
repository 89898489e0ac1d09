// Driver for strutil. Strings live in exactly sized heap blocks, so that reading beyond them is noticed.
#include "vh.hpp"
#include <itlib/strutil.hpp>
#include <array>
#include <vector>
using namespace vh;
struct Buf { std::unique_ptr<char[]> p; size_t n; explicit Buf(const std::vector<long>& v, size_t a, size_t b) : p(new char[b - a]), n(b - a) { for (size_t i = a; i < b; ++i) p[i - a] = char((unsigned char)v[i]); } std::string_view sv() const { return {p.get(), n}; } };
static std::string at(std::string_view in, std::string_view r) {
    long off = -2;
    if (r.data() >= in.data() && r.data() + r.size() <= in.data() + in.size()) off = long(r.data() - in.data()); else if (!r.data() && !in.data() && r.empty()) off = 0;
    return "[" + std::to_string(off) + "," + std::to_string(r.size()) + "]";
}
static void run(const Script& s) {
    Rec c; c.str("name", s.cfg); Trace t(s.id, c);
    for (auto& o : s.ops) { // name, length of the string, alias offset, alias length (or -1), the string, the affix
        size_t n = size_t(o.arg(0)); std::vector<long> all(o.a.begin() + 3, o.a.end()); Buf S(all, 0, n), P(all, n, all.size());
        std::string_view str = S.sv(), aff = P.sv(); bool al = o.arg(1) >= 0; if (al) aff = str.substr(size_t(o.arg(1)), size_t(o.arg(2)));
        if (s.cfg == "null" && n == 0) str = {}; if (s.cfg == "null" && aff.empty()) aff = {};
        Rec r; r.str("op", o.name).arr("s", std::vector<int>(all.begin(), all.begin() + long(n))).arr("p", std::vector<int>(all.begin() + long(n), all.end())).raw("al", al ? "[" + std::to_string(o.arg(1)) + "," + std::to_string(o.arg(2)) + "]" : "[]");
        if (o.name == "sw") r.b("res", itlib::starts_with(str, aff)); else if (o.name == "ew") r.b("res", itlib::ends_with(str, aff));
        else if (o.name == "rpa") r.raw("at", at(str, itlib::remove_prefix_all(str, aff))); else if (o.name == "rsa") r.raw("at", at(str, itlib::remove_suffix_all(str, aff)));
        else if (o.name == "view") {
            size_t a = size_t(o.arg(1)), m = size_t(o.arg(2)); std::string x; r = Rec(); r.str("op", "view").arr("s", std::vector<int>()).arr("p", std::vector<int>()).raw("al", "[]").num("o", long(a)).num("n", long(m));
            std::string st(str); std::vector<char> ve(str.begin(), str.end()); const std::string& cst = st; const std::vector<char>& cve = ve; ve.shrink_to_fit();
            using D = std::ptrdiff_t; D b = D(a), e = D(a + m);
            std::vector<std::string> got;
            got.push_back(at({S.p.get(), n}, itlib::make_string_view((const char*)S.p.get() + b, (const char*)S.p.get() + e))); got.push_back(at({S.p.get(), n}, itlib::make_string_view(S.p.get() + b, S.p.get() + e)));
            got.push_back(at({st.data(), n}, itlib::make_string_view(st.begin() + b, st.begin() + e))); got.push_back(at({st.data(), n}, itlib::make_string_view(cst.begin() + b, cst.begin() + e)));
            got.push_back(at({ve.data(), n}, itlib::make_string_view(ve.begin() + b, ve.begin() + e))); got.push_back(at({ve.data(), n}, itlib::make_string_view(cve.begin() + b, cve.begin() + e)));
            got.push_back(at({st.data(), n}, itlib::make_string_view(cst.cbegin() + b, cst.cend() - D(n) + e)));
            if (n <= 8) { std::array<char, 8> ar{}; for (size_t i = 0; i < n; ++i) ar[i] = S.p[i]; got.push_back(at({ar.data(), 8}, itlib::make_string_view(ar.begin() + b, ar.begin() + e))); }
            if (m == 0) { const char* z = nullptr; char* y = nullptr; got.push_back("[0," + std::to_string(itlib::make_string_view(z, z).size()) + "]"); got.push_back("[0," + std::to_string(itlib::make_string_view(y, y).size()) + "]"); std::vector<char> v0; got.push_back("[0," + std::to_string(itlib::make_string_view(v0.begin(), v0.end()).size()) + "]"); }
            for (size_t i = 1; i < got.size(); ++i) { Rec q = r; q.raw("at", got[i]); t.ev(q); }
            r.raw("at", got[0]);
        }
        t.ev(r);
    }
}
static Reg a("str", run), b("null", run);
int main(int c, char** v) { return drive(c, v, 20); }
