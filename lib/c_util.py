"""utility.hpp, type_traits.hpp, and what does not compile (C29)."""
from core import *

SIZES = [4, 4, 8, 8, 4, 4, 4, 4, 8, 8, 1, 1, 2, 2, 16, 16, 300, 4, 8]


def probes():
    """(function, a, b, code): compiled or not, as the specification says"""
    out = []
    U = "#include <itlib/utility.hpp>\n#include <string>\n"
    fm = lambda decl, const: out.append(("force_move", const, 0, U + "int main() { %s auto x = itlib::force_move(s); }" % decl))
    fm("std::string s;", 0); fm("const std::string s;", 1); fm("int s = 1;", 0); fm("const int s = 1;", 1)
    fm("std::string t; std::string& s = t;", 0); fm("std::string t; const std::string& s = t;", 1); fm("const std::string t; auto& s = t;", 1)
    T = {1: "char", 2: "short", 4: "float", 8: "double"}
    I = {1: "unsigned char", 2: "unsigned short", 4: "unsigned", 8: "unsigned long long"}
    for a in T:
        for b in I: out.append(("bit_cast", b, a, U + "int main() { %s s = 1; auto x = itlib::bit_cast<%s>(s); }" % (I[b], T[a])))
    P = "#include <itlib/pod_vector.hpp>\n#include <string>\n#include <memory>\n"
    pod = lambda d, t, tr, al: out.append(("pod_vector", tr, al, P + d + "int main() { itlib::pod_vector<%s> v; }" % t))
    pod("", "int", 1, 4); pod("", "std::string", 0, 8); pod("", "std::unique_ptr<int>", 0, 8); pod("struct S { int a; double b; };", "S", 1, 8)
    pod("struct S { S() {} int a; };", "S", 0, 4); pod("struct S { S(const S&) {} S() = default; int a; };", "S", 0, 4); pod("struct S { ~S() {} int a; };", "S", 0, 4)
    for al in (16, 64, 128, 256, 512): pod("struct alignas(%d) S { int a; };" % al, "S", 1, al)
    for cap in (1, 2, 5):
        for rev in (0, cap - 1, cap, cap + 1, cap + 2, cap + 7):
            out.append(("small_vector", cap, rev, "#include <itlib/small_vector.hpp>\nint main() { itlib::small_vector<int, %d, %d> v; v.push_back(1); }" % (cap, rev)))
    for t, i in (("int", 1), ("unsigned char", 1), ("long long", 1), ("float", 0), ("double", 0), ("void*", 0)):
        out.append(("counter", i, 0, "#include <itlib/atomic.hpp>\nint main() { itlib::atomic_relaxed_counter<%s> c; }" % t))
    for t, i in (("unsigned", 1), ("unsigned char", 1), ("unsigned long long", 1), ("int", 0), ("signed char", 0), ("long long", 0)):
        out.append(("bitset", i, 0, "#include <cstddef>\n#include <vector>\n#include <itlib/dynamic_bitset.hpp>\nint main() { itlib::dynamic_bitset<std::vector<%s>> c; c.push_back(true); }" % t))
    E = "#include <itlib/expected.hpp>\n#include <string>\nint main() { %s }"
    for d in ("itlib::expected<int, int>", "itlib::expected<std::string, std::string>", "itlib::expected<void, int>"):
        init = "%s a;" % d
        out.append(("copy", 0, 0, E % (init + " %s b(a);" % d)))
        out.append(("copy", 1, 0, E % (init + " %s b(static_cast<%s&&>(a));" % (d, d))))
        out.append(("copy", 0, 0, E % (init + " %s b = itlib::unexpected(); b = a;" % d)))
    F = "#include <itlib/ufunction.hpp>\nint main() { itlib::ufunction<void()> a; itlib::ufunction<void()> b%s; }"
    out += [("copy", 0, 0, F % "(a)"), ("copy", 1, 0, F % "(static_cast<itlib::ufunction<void()>&&>(a))"), ("copy", 0, 0, F % "; b = a")]
    D = "#include <itlib/data_mutex.hpp>\n#include <mutex>\nint main() { itlib::data_mutex<int, std::mutex> m; auto a = m.unique_lock(); %s }"
    out += [("copy", 0, 0, D % "auto b(a);"), ("copy", 1, 0, D % "auto b(static_cast<decltype(a)&&>(a));")]
    return out


def run(ctx):
    pr = probes()
    def probe(i):
        fn, a, b, code = pr[i]
        oks = []
        for k, (cxx, std) in enumerate((("g++", "17"), ("clang++", "14")) if not ctx.thorough else (("g++", "17"), ("clang++", "14"), ("clang++", "20"), ("g++", "11"))):
            f = os.path.join(ctx.out, "probe%d.%d.cpp" % (i, k))
            open(f, "w").write(code)
            r = subprocess.run([cxx, "-std=c++" + std, "-w", "-fsyntax-only", "-faligned-new", "-I" + os.path.join(REPO, "include"), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            oks.append((r.returncode == 0, r.stdout[-800:]))
        return [{"op": "compile", "fn": fn, "a": a, "b": b, "ok": ok, "code": code, "out": "" if ok else out} for ok, out in oks]
    with ThreadPoolExecutor(8) as ex:
        m = ex.submit(ctx.model_check, "UtilMC", "UtilMC.cfg", workers=2, min_states=40000)
        fs = [ex.submit(ctx.build, n, ["util_driver.cpp"], std, fl, None, asan, opt, cxx) for n, std, fl, asan, opt, cxx in
              (("u11", "11", ("-fno-strict-aliasing", "-faligned-new"), True, "-O1", "g++"), ("u17", "17", ("-fno-strict-aliasing", "-faligned-new"), False, "-O2", "clang++"), ("u20", "20", ("-fno-strict-aliasing", "-faligned-new"), False, "-O3", "g++"))]
        ps = list(ex.map(probe, range(len(pr))))
        m.result(); exes = [f.result() for f in fs]
    rng = ctx.rng
    sc = [("util", ["own,%d" % i for i in range(5)]), ("util", ["noop"]), ("util", ["inst", "null"]), ("util", ["move,%d,%d" % (k, v) for k in range(6) for v in (0, 1, 77)])]
    edge = {4: [0x7f800000, 0x7fa00000, 0x7fc00001, 0xff800001, 0xffffffff, 1, 0x80000000, 0x40200000, 0], 8: [0x7ff0000000000001, 0x7ff8000000000000, 0xfff0000000000001, 1 << 63, 1, (1 << 64) - 1, 0]}
    for k, n in enumerate(SIZES):
        vals = [list(v.to_bytes(n, "little")) for v in edge.get(n, [])] + ([[i] for i in range(256)] if n == 1 else []) + [[0] * n, [255] * n]
        vals += [[rng.randint(0, 255) for _ in range(n)] for _ in range(ctx.scale(20, 2000) if n < 300 else 3)]
        if k == 14: vals = vals     # no padding in either type
        sc.append(("util", ["bits,%d,%s" % (k, ",".join(map(str, v))) for v in vals]))
    judge(ctx, "UtilTrace", [(e, sc, "u%d" % i) for i, e in enumerate(exes)])
    traces = [{"id": i, "cfg": {"kind": "compile"}, "ev": evs, "script": ("compile", [evs[0]["code"]])} for i, evs in enumerate(ps)]
    if not ctx.violations:
        for r in ctx.validate("UtilTrace", traces, tag="p")[:1]:
            ctx.confirm_and_report(r)
    ctx.need_ops(["own", "bits", "noop", "inst", "ident", "move", "null", "compile"])
    ctx.notes["compile_probes"] = sum(len(x) for x in ps)
    ctx.assumptions += ["little-endian two's complement; the compilers' own verdict on what compiles"]
