// Driver for mem_istreambuf, rstream and redirect_rstream.
#include "vh.hpp"
#include <istream>
#include <itlib/mem_streambuf.hpp>
#define ITLIB_RSTREAM_OVERLOAD_RSHIFT 1
#include <itlib/rstream.hpp>
using namespace vh;

template <class Ch, bool Mem> struct Run {
    using Buf = itlib::mem_istreambuf<Ch>; using IS = std::basic_istream<Ch>; using SB = std::basic_stringbuf<Ch>; using Tr = std::char_traits<Ch>; using BB = std::basic_streambuf<Ch>;
    using RS = itlib::basic_rstream<IS>; using RD = itlib::basic_redirect_rstream<IS>;
    static Ch ch(long x) { long t[] = {66, 65, 122, 127, 128, 200, 255, 35}; long w[] = {66, 65, 0x3b1, 0x7fff, 0x8000, 0xfffc, 0xfffd, 35}; return sizeof(Ch) == 1 ? Ch(t[x & 7]) : Ch(w[x & 7]); }
    static long code(Ch c) { return long(typename std::make_unsigned<typename std::conditional<std::is_same<Ch, wchar_t>::value, int, Ch>::type>::type(c)); }
    static long icode(typename Tr::int_type i) { return Tr::eq_int_type(i, Tr::eof()) ? -1 : code(Tr::to_char_type(i)); }
    std::unique_ptr<Ch[]> memory; std::vector<Ch> copy;
    std::unique_ptr<BB> sb; std::unique_ptr<IS> is; std::vector<std::unique_ptr<RS>> wraps;
    Buf* mb() { return static_cast<Buf*>(sb.get()); }
    SB* strb() { return static_cast<SB*>(sb.get()); }
    void fill(long n, long seed) { memory.reset(new Ch[size_t(n)]); copy.clear(); for (long i = 0; i < n; ++i) { memory[size_t(i)] = ch(seed + i + i / 8); copy.push_back(memory[size_t(i)]); } }
    void attach(int how) {
        wraps.clear(); is.reset();
        if constexpr (Mem) { if (how == 0) sb.reset(new Buf(memory.get(), copy.size())); else { auto b = new Buf; b->reset(memory.get(), copy.size()); sb.reset(b); } }
        else sb.reset(new SB(std::basic_string<Ch>(copy.begin(), copy.end()), std::ios_base::in));
        is.reset(new IS(sb.get()));
    }
    static std::string arr(const std::vector<Ch>& v) { std::string q = "["; for (size_t i = 0; i < v.size(); ++i) q += (i ? "," : "") + std::to_string(code(v[i])); return q + "]"; }
    void run(const Script& s) {
        sb.reset(Mem ? static_cast<BB*>(new Buf) : new SB); fill(0, 0); attach(0);
        Rec cfg; cfg.str("name", s.cfg).b("mem", Mem);
        Trace t(s.id, cfg);
        for (auto& op : s.ops) { Rec r; r.str("op", op.name); if (step(op, r)) t.ev(r); }
        wraps.clear(); is.reset(); sb.reset();
    }
    static std::ios_base::seekdir dir(long d) { d %= 3; return d == 0 ? std::ios_base::beg : d == 1 ? std::ios_base::cur : std::ios_base::end; }
    static long off_of(typename BB::pos_type p) { return long(typename BB::off_type(p)); }
    bool step(const Op& op, Rec& r) {
        const std::string& n = op.name; long ret = -2, gc = -2; std::vector<Ch> got; using P = typename BB::pos_type; using O = typename BB::off_type;
        long a = op.arg(0);
        auto block = [&](size_t k) { got.assign(k, Ch(1)); return got.data(); };
        if (n[0] == 'x' && wraps.empty()) return false;
        std::string ex = guarded([&] {
            if (n == "new") { fill(a, op.arg(1)); attach(0); }
            else if (n == "reset") { fill(a, op.arg(1)); if constexpr (Mem) mb()->reset(memory.get(), copy.size()); else strb()->str(std::basic_string<Ch>(copy.begin(), copy.end())); } // the stream stays
            else if (n == "sgetc") ret = icode(sb->sgetc());
            else if (n == "sbumpc") ret = icode(sb->sbumpc());
            else if (n == "snextc") ret = icode(sb->snextc());
            else if (n == "sgetn") { auto p = block(size_t(a)); ret = long(sb->sgetn(p, a)); got.resize(size_t(ret)); }
            else if (n == "sgetnb") { auto p = block(copy.size()); ret = long(sb->sgetn(p, std::streamsize(1) << 62)); got.resize(size_t(ret)); }
            else if (n == "sunget") ret = icode(sb->sungetc());
            else if (n == "putback") ret = icode(sb->sputbackc(ch(a)));
            else if (n == "avail") ret = long(sb->in_avail());
            else if (n == "seekpos") ret = off_of(sb->pubseekpos(P(O(a)), std::ios_base::in));
            else if (n == "seekoff") ret = off_of(sb->pubseekoff(a, dir(op.arg(1)), std::ios_base::in));
            else if (n == "get") ret = icode(is->get());
            else if (n == "peek") ret = icode(is->peek());
            else if (n == "read") { auto p = block(size_t(a)); is->read(p, a); gc = long(is->gcount()); got.resize(size_t(gc)); }
            else if (n == "unget") is->unget();
            else if (n == "seekg") is->seekg(P(O(a)));
            else if (n == "seekgd") is->seekg(a, dir(op.arg(1)));
            else if (n == "tellg") ret = off_of(is->tellg());
            else if (n == "sclear") is->clear();
            else if (n == "wrap") { if (wraps.size() < 3) wraps.emplace_back(new RS(*is)); }
            else if (n == "redir") { if (wraps.size() < 3) wraps.emplace_back(new RD(*is, P(O(a)))); }
            else if (n == "xread") { auto p = block(size_t(a)); auto& w = *wraps.back(); ret = &w.read(p, a) == &w; gc = long(is->gcount()); got.resize(size_t(gc)); }
            else if (n == "xrsh") { Ch c = Ch(1); if constexpr (std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value) { *wraps.back() >> c; ret = code(c); } else { is->read(&c, 1); ret = code(c); } }
            else if (n == "xend") { wraps.pop_back(); }
        });
        O pos = O(sb->pubseekoff(0, std::ios_base::cur, std::ios_base::in));
        bool wok = true;
        for (auto& w : wraps) if (w->good() != is->good() || w->fail() != is->fail() || w->eof() != is->eof() || bool(*w) != !is->fail()) wok = false;
        bool same = true;
        for (size_t i = 0; i < copy.size(); ++i) if (Mem && memory[i] != copy[i]) same = false;
        r.num("a", a).num("d", op.arg(1) % 3).num("ch", code(ch(a))).str("ex", ex).num("r", ret).num("gc", gc).raw("got", arr(got)).num("p", long(pos)).b("eof", is->eof()).b("fail", is->fail()).b("bad", is->bad()).b("wok", wok).b("same", same).num("nw", long(wraps.size()));
        if (n == "new" || n == "reset") r.raw("data", arr(copy)); else r.raw("data", "[]");
        if constexpr (Mem) r.num("goff", long(mb()->goff())).num("size", long(mb()->size())); else r.num("goff", long(pos)).num("size", long(copy.size()));
        return true;
    }
};
template <class C, bool M> void go(const Script& s) { Run<C, M> r; r.run(s); }
#define R(N, C, M) static Reg r_##N(#N, go<C, M>);
#if PART == 0
R(mem_char, char, true) R(mem_w, wchar_t, true)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
R(mem_16, char16_t, true) R(mem_32, char32_t, true)
#elif PART == 2
R(str_char, char, false) R(str_w, wchar_t, false)
#endif
