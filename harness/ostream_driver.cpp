// Driver for mem_ostreambuf over containers and character types.
#include "vh.hpp"
#include <ostream>
#include <itlib/mem_streambuf.hpp>
#include <itlib/small_vector.hpp>
#include <itlib/static_vector.hpp>
#include <itlib/pod_vector.hpp>
using namespace vh;

template <class C, class = void> struct Limit { static constexpr int v = -1; };
template <class T, size_t N> struct Limit<itlib::static_vector<T, N>> { static constexpr int v = int(N); };

template <class Cont> struct Run {
    using Ch = typename Cont::value_type; using Buf = itlib::mem_ostreambuf<Cont>; using OS = std::basic_ostream<Ch>; using Tr = std::char_traits<Ch>;
    static long code(Ch c) { return long(typename std::make_unsigned<typename std::conditional<std::is_same<Ch, wchar_t>::value, int, Ch>::type>::type(c)); }
    static std::string arr(const Cont& c, size_t n) { std::string r = "["; for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + std::to_string(code(*(c.data() + i))); return r + "]"; }
    struct U { Buf buf; OS os; U(size_t r) : buf(r), os(&buf) {} U(const Buf& b, int) : buf(b), os(&buf) {} U(Buf&& b, int) : buf(std::move(b)), os(&buf) {} };
    std::unique_ptr<U> u, v; // the current one, the other
    void run(const Script& s) {
        u.reset(new U(0)); v.reset(new U(0));
        Rec cfg; cfg.str("name", s.cfg).num("lim", Limit<Cont>::v);
        Trace t(s.id, cfg);
        for (auto& op : s.ops) { Rec r; r.str("op", op.name); if (step(op, r)) t.ev(r); }
    }
    static Ch ch(long x) { long t[] = {1, 65, 122, 127, 128, 200, 255, 0}; long w[] = {1, 65, 0x3b1, 0x7fff, 0x8000, 0xfffe, 0xfffd, 0}; return sizeof(Ch) == 1 ? Ch(t[x & 7]) : Ch(w[x & 7]); }
    bool step(const Op& op, Rec& r) {
        const std::string& n = op.name; Buf& b = u->buf; OS& os = u->os; long ret = -2; std::string c = "[]"; bool full = n != "bigwrite" ;
        std::vector<Ch> txt;
        std::string ex = guarded([&] {
            if (n == "new") { u.reset(new U(size_t(op.arg(0)))); }
            else if (n == "putc" || n == "sputc") { txt.push_back(ch(op.arg(0))); if (n == "putc") os.put(txt[0]); else ret = Tr::eq_int_type(b.sputc(txt[0]), Tr::to_int_type(txt[0])) ? 1 : 0; }
            else if (n == "write" || n == "sputn") {
                for (long i = 0; i < op.arg(0); ++i) txt.push_back(ch(op.arg(1) + i % 9));
                if (n == "write") os.write(txt.data(), std::streamsize(txt.size())); else ret = long(b.sputn(txt.data(), std::streamsize(txt.size())));
            }
            else if (n == "fmt") { std::string d = std::to_string(op.arg(0)); for (char x : d) txt.push_back(Ch(x));
                if constexpr (std::is_same<Ch, char>::value || std::is_same<Ch, wchar_t>::value) os << op.arg(0); else os.write(txt.data(), std::streamsize(txt.size())); }
            else if (n == "seekpos") ret = long(off_of(b.pubseekpos(typename Buf::pos_type(typename Buf::off_type(op.arg(0))), std::ios_base::out)));
            else if (n == "seekoff") ret = long(off_of(b.pubseekoff(op.arg(0), dir(op.arg(1)), std::ios_base::out)));
            else if (n == "seekp") { os.seekp(typename Buf::pos_type(typename Buf::off_type(op.arg(0)))); }
            else if (n == "seekpd") { os.seekp(op.arg(0), dir(op.arg(1))); }
            else if (n == "tellp") { ret = long(off_of(os.tellp())); }
            else if (n == "sw") std::swap(u, v);
            else if (n == "cc") v.reset(new U(static_cast<const Buf&>(b), 0));
            else if (n == "mc") v.reset(new U(std::move(b), 0));
            else if (n == "ac") v->buf = static_cast<const Buf&>(b);
            else if (n == "am") v->buf = std::move(b);
            else if (n == "asc") { const Buf& x = b; b = x; }
            else if (n == "asm") { Buf& x = b; b = std::move(x); }
            else if (n == "clear") b.clear();
            else if (n == "sclear") os.clear();
            else if (n == "flush") os.flush();
            else if (n == "get") { Cont k = b.get_container(); ret = long(k.size()); c = arr(k, k.size()); }
        });
        r.num("a", op.arg(0)).num("d", op.arg(1) % 3).raw("txt", [&] { std::string q = "["; for (size_t i = 0; i < txt.size(); ++i) q += (i ? "," : "") + std::to_string(code(txt[i])); return q + "]"; }());
        auto put = [](Rec& q, U& w) -> Rec& { return q.num("p", long(w.buf.poff())).raw("pk", arr(w.buf.peek_container(), w.buf.peek_container().size())).b("good", w.os.good()).b("bad", w.os.bad()).b("fail", w.os.fail()); };
        put(r.str("ex", ex).num("r", ret).raw("c", c), *u);
        Rec o; r.raw("o", put(o, *v).obj());
        return true;
    }
    static typename Buf::off_type off_of(typename Buf::pos_type p) { return typename Buf::off_type(p); }
    static std::ios_base::seekdir dir(long d) { d %= 3; return d == 0 ? std::ios_base::beg : d == 1 ? std::ios_base::cur : std::ios_base::end; }
};
template <class C> void go(const Script& s) { static Run<C> r; r.run(s); }
#define R(N, ...) static Reg r_##N(#N, go<__VA_ARGS__>);
#if PART == 0
R(vec, std::vector<char>) R(str, std::string)
int main(int c, char** v) { return drive(c, v); }
#elif PART == 1
R(small, itlib::small_vector<char, 8>) R(stat, itlib::static_vector<char, 20>)
#elif PART == 2
R(pod, itlib::pod_vector<char>) R(wstr, std::wstring) R(wvec, std::vector<wchar_t>)
#elif PART == 3
R(u16, std::u16string) R(u16vec, std::vector<char16_t>) R(u32, std::u32string)
#endif
