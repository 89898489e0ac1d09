// Common parts of all drivers: script parsing, event log, instrumented elements and allocators.
// A driver executes scripts of operations on the real code and records, after each operation,
// what it returned and the projected state. It never judges: the TLA+ specification does.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <csignal>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vh {

// ------------------------------------------------------------------ output
inline int& out_fd() { static int fd = -1; return fd; }
inline void put(const std::string& s) {
    const char* p = s.data(); size_t n = s.size();
    while (n) { ssize_t k = ::write(out_fd(), p, n); if (k <= 0) _exit(3); p += k; n -= size_t(k); }
}
inline std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
struct Rec { // one JSON object
    std::string s;
    Rec& raw(const char* k, const std::string& v) { s += s.empty() ? "\"" : ",\""; s += k; s += "\":"; s += v; return *this; }
    Rec& num(const char* k, long long v) { return raw(k, std::to_string(v)); }
    Rec& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
    Rec& str(const char* k, const std::string& v) { return raw(k, jstr(v)); }
    template <class C> Rec& arr(const char* k, const C& c) {
        std::string t = "["; bool f = true;
        for (auto& x : c) { if (!f) t += ','; f = false; t += std::to_string((long long)x); }
        return raw(k, t + "]");
    }
    std::string obj() const { return "{" + s + "}"; }
};

// ------------------------------------------------------------------ scripts
struct Op {
    std::string name; std::vector<long> a;
    long arg(size_t i, long d = 0) const { return i < a.size() ? a[i] : d; }
};
struct Script { int id; std::string cfg; std::vector<Op> ops; };

struct Trace { // writes one trace line
    bool first = true;
    Trace(int id, const Rec& cfg) { put("{\"id\":" + std::to_string(id) + ",\"cfg\":" + cfg.obj() + ",\"ev\":["); }
    void ev(const Rec& r) { put((first ? "" : ",") + r.obj()); first = false; }
    ~Trace() { put("]}\n"); }
};

using Runner = std::function<void(const Script&)>;
inline std::map<std::string, Runner>& runners() { static std::map<std::string, Runner> r; return r; }
struct Reg { Reg(const std::string& n, Runner r) { runners()[n] = std::move(r); } };

inline int drive(int argc, char** argv, unsigned per_script_s = 20) {
    if (argc < 4) return 3;
    std::ifstream in(argv[1]);
    out_fd() = ::open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (!in || out_fd() < 0) return 3;
    int start = atoi(argv[3]);
    std::string line;
    for (int id = 0; std::getline(in, line); ++id) {
        if (id < start) continue;
        std::istringstream ls(line);
        Script s; s.id = id; ls >> s.cfg;
        std::string tok;
        while (ls >> tok) {
            Op op; size_t p = tok.find(',');
            op.name = tok.substr(0, p);
            while (p != std::string::npos) {
                size_t q = tok.find(',', p + 1);
                op.a.push_back(strtol(tok.substr(p + 1, q == std::string::npos ? q : q - p - 1).c_str(), nullptr, 10));
                p = q;
            }
            s.ops.push_back(std::move(op));
        }
        auto r = runners().find(s.cfg);
        if (r == runners().end()) { fprintf(stderr, "unknown configuration %s\n", s.cfg.c_str()); return 3; }
        alarm(per_script_s);
        r->second(s);
        alarm(0);
    }
    return 0;
}

// ------------------------------------------------------------------ exceptions
struct Boom : std::exception { const char* what() const noexcept override { return "boom"; } };
template <class F> std::string guarded(F&& f) { // runs f, names the exception it ended with ("" if none)
    try { f(); return ""; }
    catch (const Boom&) { return "boom"; }
    catch (const std::out_of_range&) { return "oor"; }
    catch (const std::bad_alloc&) { return "alloc"; }
    catch (const std::bad_cast&) { return "badcast"; }
    catch (const std::length_error&) { return "length"; }
    catch (const std::exception& e) { return std::string("std:") + e.what(); }
    catch (int) { return "int"; }
    catch (...) { return "other"; }
}

// ------------------------------------------------------------------ memory and lifetime log
// Micro events, as integer tuples:
//  [1,b,i] element constructed in slot (b,i)   [2,b,i] destroyed      [3,b,i] assigned to     [4,b,i] read (copied or moved from)
//  [5,b,n,a] block b of n elements allocated by allocator a           [6,b,n,a] block b deallocated with size n by allocator a
// b = 0: not in any registered block, i = a serial number of the object at that address
inline int& watch_open() { static int o = 0; return o; }
struct Unwatched { int s = watch_open(); Unwatched() { watch_open() = 0; } ~Unwatched() { watch_open() = s; } };
struct MemLog {
    struct Block { const char* p; size_t bytes; int id; size_t unit; };
    std::vector<Block> blocks;             // registered blocks, alive
    std::map<const void*, int> ext;        // objects outside of blocks
    int next_block = 1, next_ext = 1;
    std::string buf; bool on = true;
    long fuse = -1;                        // element constructions (not moves) until one throws
    long afuse = -1;                       // allocations until one throws
    static MemLog& get() { static MemLog m; return m; }
    void reset() { blocks.clear(); ext.clear(); next_block = 1; next_ext = 1; buf.clear(); fuse = afuse = -1; }
    void emit(std::initializer_list<long> l) {
        if (!on) return;
        Unwatched u;
        buf += buf.empty() ? "[" : ",[";
        bool f = true;
        for (long x : l) { if (!f) buf += ','; f = false; buf += std::to_string(x); }
        buf += ']';
    }
    std::string drain() { std::string r = "[" + buf + "]"; buf.clear(); return r; }
    int add_block(const void* p, size_t bytes, size_t unit) {
        Unwatched u;
        int id = next_block++;
        blocks.push_back({(const char*)p, bytes, id, unit});
        return id;
    }
    const Block* find(const void* p) const {
        for (auto it = blocks.rbegin(); it != blocks.rend(); ++it)
            if ((const char*)p >= it->p && (const char*)p < it->p + it->bytes) return &*it;
        return nullptr;
    }
    int remove_block(const void* p) {
        for (size_t i = 0; i < blocks.size(); ++i) if (blocks[i].p == p) { int id = blocks[i].id; blocks.erase(blocks.begin() + long(i)); return id; }
        return -1;
    }
    std::pair<int, int> slot(const void* p, bool ctor = false, bool dtor = false) {
        if (auto b = find(p)) {
            size_t off = size_t((const char*)p - b->p);
            return {b->id, off % b->unit ? -int(off) - 1 : int(off / b->unit)};
        }
        Unwatched u;
        auto it = ext.find(p);
        if (ctor && it == ext.end()) it = ext.emplace(p, next_ext++).first;
        if (it == ext.end()) return {0, -1};
        int id = it->second;
        if (dtor) ext.erase(it);
        return {0, id};
    }
    void ctor(const void* p) { auto s = slot(p, true); emit({1, s.first, s.second}); }
    void dtor(const void* p) { auto s = slot(p, false, true); emit({2, s.first, s.second}); }
    void assign(const void* p) { auto s = slot(p); emit({3, s.first, s.second}); }
    void read(const void* p) { auto s = slot(p); emit({4, s.first, s.second}); }
    void maybe_throw() { if (fuse >= 0 && fuse-- == 0) throw Boom(); }
};
inline MemLog& mem() { return MemLog::get(); }

constexpr int MOVED = -7;
// element with observable lifetime; moves never throw, other constructions may by fuse
struct Elem {
    int v;
    Elem() : v(0) { mem().maybe_throw(); mem().ctor(this); }
    Elem(int x) : v(x) { mem().maybe_throw(); mem().ctor(this); }
    Elem(const Elem& o) : v((mem().maybe_throw(), mem().read(&o), o.v)) { mem().ctor(this); }
    Elem(Elem&& o) noexcept : v((mem().read(&o), o.v)) { o.v = MOVED; mem().ctor(this); }
    Elem& operator=(const Elem& o) { mem().maybe_throw(); mem().read(&o); mem().assign(this); v = o.v; return *this; }
    Elem& operator=(Elem&& o) noexcept { mem().read(&o); mem().assign(this); int t = o.v; o.v = MOVED; v = t; return *this; }
    ~Elem() { mem().dtor(this); v = -99; }
    bool operator==(const Elem& o) const { return v == o.v; }
    bool operator<(const Elem& o) const { return v < o.v; }
};

// like Elem, but moves may throw by fuse too: those from values given to operations, or (Always) all of them
template <bool Copy, bool Always = false> struct Hot {
    struct Make { int v; };
    int v; bool hot = Always;
    Hot() : v(0) { mem().maybe_throw(); mem().ctor(this); }
    explicit Hot(Make x) : v(x.v) { mem().maybe_throw(); mem().ctor(this); }
    Hot(const typename std::conditional<Copy, Hot, Hot<!Copy>*>::type& o) : v(val(o)) { mem().ctor(this); }
    Hot(Hot&& o) : v(((o.hot ? mem().maybe_throw() : void()), mem().read(&o), o.v)) { o.v = MOVED; mem().ctor(this); }
    Hot& operator=(const typename std::conditional<Copy, Hot, Hot<!Copy>*>::type& o) { int t = val(o); mem().assign(this); v = t; return *this; }
    Hot& operator=(Hot&& o) { if (o.hot) mem().maybe_throw(); mem().read(&o); mem().assign(this); int t = o.v; o.v = MOVED; v = t; return *this; }
    ~Hot() { mem().dtor(this); v = -99; }
    bool operator==(const Hot& o) const { return v == o.v; }
private:
    static int val(const Hot& o) { mem().maybe_throw(); mem().read(&o); return o.v; }
    static int val(const Hot<!Copy>*) { return -3; }
};
// like Elem, but only ever copied, which may throw by fuse
struct OnlyCopied {
    struct Make { int v; };
    int v;
    OnlyCopied() : v(0) { mem().maybe_throw(); mem().ctor(this); }
    explicit OnlyCopied(Make x) : v(x.v) { mem().maybe_throw(); mem().ctor(this); }
    OnlyCopied(const OnlyCopied& o) : v((mem().maybe_throw(), mem().read(&o), o.v)) { mem().ctor(this); }
    OnlyCopied& operator=(const OnlyCopied& o) { mem().maybe_throw(); mem().read(&o); mem().assign(this); v = o.v; return *this; }
    ~OnlyCopied() { mem().dtor(this); v = -99; }
    bool operator==(const OnlyCopied& o) const { return v == o.v; }
};

// element of kind K (0..7): slots are tagged with the kind, so that an object destroyed as another kind is noticed
template <int K, bool Copy = true, int Align = alignof(int)>
struct alignas(Align) Tr {
    int v;
    static void ev(int what, const void* p) {
        auto s = mem().slot(p, what == 1, what == 2);
        mem().emit({what, s.first, s.second < 0 ? s.second : s.second * 8 + K});
    }
    void mis() const { if (uintptr_t(this) % Align) ev(9, this); }
    Tr() : v(0) { mem().maybe_throw(); ev(1, this); mis(); }
    explicit Tr(int x) : v(x) { mem().maybe_throw(); ev(1, this); mis(); }
    template <bool C = Copy, typename std::enable_if<C, int>::type = 0> explicit Tr(int x, int y) : Tr(x + y) {}
    Tr(const typename std::conditional<Copy, Tr, Tr<7>>::type& o) : v((mem().maybe_throw(), ev(4, &o), o.v)) { ev(1, this); mis(); }
    Tr(Tr&& o) noexcept : v((ev(4, &o), o.v)) { o.v = MOVED; ev(1, this); mis(); }
    Tr& operator=(const typename std::conditional<Copy, Tr, Tr<7>>::type& o) { mem().maybe_throw(); ev(4, &o); ev(3, this); v = o.v; return *this; }
    Tr& operator=(Tr&& o) noexcept { ev(4, &o); ev(3, this); int t = o.v; o.v = MOVED; v = t; return *this; }
    ~Tr() { ev(2, this); v = -99; }
    bool operator==(const Tr& o) const { return v == o.v; }
    int slot() const { auto s = mem().slot(this); return s.second < 0 ? -1 : s.first * 100000 + s.second * 8 + K; }
};

// outstanding allocations made while a window is open (address sanitizer's hooks)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
struct Watch {
    static constexpr size_t N = 1 << 14;
    static const volatile void** tab() { static const volatile void* t[N]; return t; }
    static int& open() { return watch_open(); }
    static long& count() { static long c = 0; return c; }
    static void on_malloc(const volatile void* p, size_t) {
        if (!open() || !p) return;
        for (size_t i = (uintptr_t(p) >> 4) % N, k = 0; k < N; ++k, i = (i + 1) % N) if (!tab()[i] || tab()[i] == (void*)1) { tab()[i] = p; ++count(); return; }
    }
    static void on_free(const volatile void* p) {
        if (!count() || !p) return;
        for (size_t i = (uintptr_t(p) >> 4) % N, k = 0; k < N && tab()[i]; ++k, i = (i + 1) % N) if (tab()[i] == p) { tab()[i] = (void*)1; --count(); return; }
    }
    static void install() { static int once = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); (void)once; }
    static void clear() { install(); for (size_t i = 0; i < N; ++i) tab()[i] = nullptr; count() = 0; }
    Watch() { ++open(); }
    ~Watch() { --open(); }
};

// stateful allocator; logs every call
template <class T, bool Pocca = false, bool AlwaysEq = false>
struct Alloc {
    using value_type = T;
    using propagate_on_container_move_assignment = std::true_type;
    int id;
    Alloc(int i = 1) : id(i) {}
    template <class U> Alloc(const Alloc<U, Pocca, AlwaysEq>& o) : id(o.id) {}
    template <class U> struct rebind { using other = Alloc<U, Pocca, AlwaysEq>; };
    T* allocate(size_t n) {
        auto& m = mem();
        if (m.afuse >= 0 && m.afuse-- == 0) throw std::bad_alloc();
        T* p = static_cast<T*>(::operator new(n * sizeof(T) ? n * sizeof(T) : 1, std::align_val_t(alignof(T))));
        int b = m.add_block(p, n * sizeof(T), sizeof(T));
        m.emit({5, b, long(n), id});
        return p;
    }
    void deallocate(T* p, size_t n) {
        int b = mem().remove_block(p);
        mem().emit({6, b, long(n), id});
        if (b >= 0) ::operator delete(p, std::align_val_t(alignof(T)));
    }
    bool operator==(const Alloc& o) const { return AlwaysEq || id == o.id; }
    bool operator!=(const Alloc& o) const { return !(*this == o); }
};

// ------------------------------------------------------------------ element kinds: int <-> value
template <class T> struct Val;
template <> struct Val<int> { static int mk(int v) { return v; } static int get(int v) { return v; } static constexpr bool copy = true, tracked = false; };
template <> struct Val<Elem> { static Elem mk(int v) { return Elem(v); } static int get(const Elem& e) { return e.v; } static constexpr bool copy = true, tracked = true; };
template <bool C, bool A> struct Val<Hot<C, A>> {
    using H = Hot<C, A>;
    static H mk(int v) { return H(typename H::Make{v}); } static int get(const H& e) { return e.v; } static constexpr bool copy = C, tracked = true;
    static void heat(H& e) { e.hot = true; }
};
template <> struct Val<OnlyCopied> { static OnlyCopied mk(int v) { return OnlyCopied(OnlyCopied::Make{v}); } static int get(const OnlyCopied& e) { return e.v; } static constexpr bool copy = true, tracked = true; };
template <> struct Val<std::string> {
    static std::string mk(int v) { return v ? (v % 2 ? "v" : "a value that does not fit a small string ") + std::to_string(v) : ""; }
    static int get(const std::string& s) { if (s.empty()) return 0; auto p = s.find_first_of("0123456789"); return p == s.npos ? -5 : mk(atoi(s.c_str() + p)) == s ? atoi(s.c_str() + p) : -5; }
    static constexpr bool copy = true, tracked = false;
};
template <> struct Val<std::unique_ptr<int>> {
    static std::unique_ptr<int> mk(int v) { return v ? std::unique_ptr<int>(new int(v)) : nullptr; }
    static int get(const std::unique_ptr<int>& p) { return p ? *p : 0; }
    static constexpr bool copy = false, tracked = false;
};
struct alignas(64) Wide { // over-aligned, multi-word
    int v; char pad[100]; int w;
    Wide(int x = 0) : v(x), w(x) { memset(pad, x & 0x7f, sizeof pad); }
    bool operator==(const Wide& o) const { return v == o.v && w == o.w; }
};
template <> struct Val<Wide> {
    static Wide mk(int v) { return Wide(v); }
    static int get(const Wide& x) {
        if (uintptr_t(&x) % 64) return -6;
        for (char c : x.pad) if (c != char(x.v & 0x7f)) return -5;
        return x.v == x.w ? x.v : -5;
    }
    static constexpr bool copy = true, tracked = false;
};

struct Fixed { // made, copied, moved and destroyed, but never assigned; its address is not taken with &; compared with == only
    const int v; const Fixed* const self; std::unique_ptr<int> heap;
    explicit Fixed(int x) : v(x), self(this), heap(new int(x)) {}
    Fixed() : Fixed(0) {}
    Fixed(const Fixed& o) : v(o.v), self(this), heap(new int(*o.heap)) {}
    Fixed(Fixed&& o) noexcept : v(o.v), self(this), heap(std::move(o.heap)) {}
    Fixed& operator=(const Fixed&) = delete;
    void operator&() const = delete;
    template <class T> void operator,(T&&) const = delete;
    friend bool operator==(const Fixed& a, const Fixed& b) { return a.v == b.v; }
};
template <> struct Val<Fixed> {
    static Fixed mk(int v) { return Fixed(v); }
    static int get(const Fixed& x) { return x.self == std::addressof(x) && x.heap && *x.heap == x.v ? x.v : -5; }
    static constexpr bool copy = true, tracked = false;
};

struct Odd { // trivially copied, but equal ones need not look the same
    int v; unsigned mark;
    Odd() : Odd(0) {}
    explicit Odd(int x) : v(x), mark(fresh()) {}
    static unsigned fresh() { static unsigned n = 0; return n += 2654435761u; }
    friend bool operator==(const Odd& a, const Odd& b) { return a.v == b.v; }
};
template <> struct Val<Odd> {
    static Odd mk(int v) { return Odd(v); }
    static int get(const Odd& x) { return x.v; }
    static constexpr bool copy = true, tracked = false;
};

#if __cplusplus >= 201703L
// calls go with an initializer list of the k (at most Max) values x(0), x(1)...
template <class T, class X, class G, size_t... I> void il_n(X& x, G& go, std::index_sequence<I...>) { go(std::initializer_list<T>{x(int(I))...}); }
template <size_t Max, class T, class X, class G> void with_il(size_t k, X&& x, G&& go) {
    if (k >= Max) il_n<T>(x, go, std::make_index_sequence<Max>());
    else if constexpr (Max > 0) with_il<Max - 1, T>(k, x, go);
}
#endif

} // namespace vh
