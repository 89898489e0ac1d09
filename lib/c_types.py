"""What types let a program do (C30), and headers on their own (C31)."""
import re, shutil
from core import *

SCRIPTS = [("types", ["mem"]), ("types", ["conv,%d" % i for i in range(4)]), ("types", ["make", "impl"]), ("types", ["acc"]), ("types", ["grow"])]


def run(ctx):
    with ThreadPoolExecutor(4) as ex:
        m = ex.submit(ctx.model_check, "TypesMC", "TypesMC.cfg", workers=2, min_states=10000)
        cfg = [("ty17", "17", "g++"), ("ty20", "20", "clang++")] + ([("ty14", "14", "clang++"), ("ty20g", "20", "g++"), ("ty23", "23", "g++")] if ctx.thorough else [])
        fs = [ex.submit(ctx.build, n, ["types_driver.cpp"], std, (), None, n == "ty17", "-O0", cxx) for n, std, cxx in cfg]
        m.result(); exes = [f.result() for f in fs]
    judge(ctx, "TypesTrace", [(e, SCRIPTS, "t%d" % i) for i, e in enumerate(exes)])
    ctx.need_ops(["mem", "conv", "make", "truth", "count", "acc", "grow"])
    ctx.assumptions += ["the standard type traits say what the compilers do"]


# every member of what a header defines: explicit instantiations, or uses of all functions
WHOLE = {
    "any": "template class itlib::any<>;\nint* a(itlib::any<>& x) { return itlib::any_cast<int>(&x); }\nconst int* b() { return itlib::any_cast<int>(nullptr); }",
    "atomic": "template struct itlib::atomic_relaxed_counter<int>;\ntemplate struct itlib::atomic_relaxed_counter<unsigned long long>;",
    "atomic_shared_ptr_storage": "template class itlib::atomic_shared_ptr_storage<int>;",
    "data_mutex": "struct m { void lock(); void unlock(); bool try_lock(); void lock_shared(); void unlock_shared(); bool try_lock_shared(); };\ntemplate class itlib::data_mutex<int, m>;",
    "dynamic_bitset": "template class itlib::dynamic_bitset<>;\ntemplate class itlib::dynamic_bitset<std::vector<unsigned char>>;",
    "expected": "template class itlib::expected<int, char>;\ntemplate class itlib::expected<void, char>;\ntemplate class itlib::expected<int&, char>;",
    "flat_map": "template class itlib::flat_map<int, int>;\ntemplate class itlib::flat_map<char, int*>;",
    "flat_set": "template class itlib::flat_set<int>;\ntemplate class itlib::flat_set<char>;",
    "generator": "template class itlib::generator<int>;",
    "make_ptr": "auto p = itlib::make_shared(5);\nauto q = itlib::make_unique(5);",
    "mem_streambuf": "#include <vector>\ntemplate class itlib::mem_ostreambuf<std::vector<char>>;\ntemplate class itlib::mem_istreambuf<char>;\ntemplate class itlib::mem_istreambuf<wchar_t>;",
    "memory_view": "template class itlib::memory_view<int>;\ntemplate class itlib::const_memory_view<int>;",
    "mutex": "bool f(itlib::strong_try_rec_mutex& m) { bool r = m.try_lock(); m.unlock(); return r; }",
    "pmr_allocator": "template class itlib::pmr_allocator<int>;",
    "pod_vector": "template class itlib::pod_vector<int>;\ntemplate class itlib::pod_vector<unsigned char>;",
    "poly_span": "template class itlib::poly_span<int&>;\ntemplate class itlib::poly_span<int>;",
    "qalgorithm": "#include <vector>\nbool f(std::vector<int>& a) { return itlib::pfind(a, 1) && itlib::qany_of(a, [](int x) { return x > 7; }); }",
    "rstream": "#include <sstream>\ntemplate class itlib::basic_rstream<std::istringstream>;",
    "sentry": "void f() {}\nvoid g() { auto s = itlib::make_sentry(f); }",
    "shared_from": "struct A : public itlib::enable_shared_from { std::shared_ptr<A> f() { return shared_from(this); } };",
    "small_vector": "template class itlib::small_vector<int>;\ntemplate class itlib::small_vector<char*, 3, 2>;",
    "span": "template class itlib::span<int>;\ntemplate class itlib::span<const int>;",
    "static_vector": "template class itlib::static_vector<int, 3>;\ntemplate class itlib::static_vector<char*, 1>;",
    "stride_span": "template class itlib::stride_span<int>;\ntemplate class itlib::stride_span<const int>;",
    "strutil": "bool f(std::string_view s) { return itlib::starts_with(s, s) && itlib::ends_with(s, s); }",
    "tep_vector": "itlib::tep_vector v;",
    "throw_ex": "#include <stdexcept>\nvoid f() { itlib::throw_ex<std::runtime_error>() << 5; }",
    "time_t": "int f() { return int(itlib::time_t().gmtime().tm_year); }",
    "transparent_umap": "#include <string>\ntemplate class itlib::transparent_umap<std::string, int>;",
    "type_traits": "static_assert(itlib::is_noop_convertible<int, unsigned>::value, \"\");",
    "ufunction": "template class itlib::ufunction<void()>;\ntemplate class itlib::ufunction<int(int, char)>;",
    "utility": "int f(int x) { return itlib::force_move(x); }",
}


def run_alone(ctx):
    inc = os.path.join(REPO, "include", "itlib")
    hs = sorted(WHOLE)
    for h in hs:
        d = os.path.join(ctx.out, "only", h, "itlib"); os.makedirs(d, exist_ok=True)
        if os.path.exists(os.path.join(inc, h + ".hpp")): shutil.copy(os.path.join(inc, h + ".hpp"), d)
    stds = [11, 14, 17, 20, 23] if ctx.thorough else [11, 17, 20]

    def compile(code, name, cxx, std, idir, *args):
        f = os.path.join(ctx.out, name + ".cpp"); open(f, "w").write(code)
        r = subprocess.run([cxx, "-std=c++%d" % std, "-w", "-faligned-new", "-I" + idir, *(args or ("-fsyntax-only",)), f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode == 0, r.stdout if r.returncode == 0 and args == ("-E", "-dD") else r.stdout[-800:]

    def header(h):
        evs = []
        for cxx in ("g++", "clang++"):
            for std in stds:
                d, n = os.path.join(ctx.out, "only", h), "%s_%s_%d" % (h, cxx[0], std)
                I = "#include <itlib/%s.hpp>\n" % h
                use = I + I + WHOLE[h] + "\nint main() {}\n"
                ok, out = compile(use, n, cxx, std, d)
                res = [("alone", I, ok, out), ("twice", I + I, ok, out), ("whole", use, ok, out)]     # each is part of the next
                if not ok:
                    res = [(o, c, *compile(c, n + o, cxx, std, d)) for o, c, _, _ in res]
                evs += [{"op": o, "h": h, "cxx": cxx, "std": std, "ok": k, "code": c, "out": "" if k else x} for o, c, k, x in res]
        # what stays defined, by the file that defines it
        ok, out = compile("#include <itlib/%s.hpp>\n" % h, h + "_m", "g++", 20, os.path.join(ctx.out, "only", h), "-E", "-dD")
        if ok:
            cur, defs = "", set()
            for l in out.split("\n"):
                m = re.match(r'# \d+ "(.*?)"', l)
                if m: cur = m.group(1)
                m = re.match(r"#(define|undef) (\w+)", l)
                if m and "itlib/" in cur: (defs.add if m.group(1) == "define" else defs.discard)(m.group(2))
            evs.append({"op": "macros", "h": h, "foreign": sorted(x for x in defs if "ITLIB" not in x), "code": "#include <itlib/%s.hpp>" % h})
        return evs

    mins = dict(re.findall(r"(\w+) \|-> (\d+)", open(os.path.join(VERIF, "spec", "Standalone.tla")).read()))

    def orders(i):
        std = stds[i % len(stds)]; cxx = ("g++", "clang++")[(i // len(stds)) % 2]
        l = [h for h in hs if int(mins[h]) <= std]; random.Random("%s/%d" % (ctx.seed, i)).shuffle(l)
        code = "".join("#include <itlib/%s.hpp>\n" % h for h in l) + "int main() {}\n"
        ok, out = compile(code, "order%d" % i, cxx, std, os.path.join(REPO, "include"))
        return [{"op": "order", "hs": l, "cxx": cxx, "std": std, "ok": ok, "code": code, "out": "" if ok else out}]

    def link(i):
        std = stds[i]
        l = [h for h in hs if int(mins[h]) <= std]
        I = "".join("#include <itlib/%s.hpp>\n" % h for h in l)
        a, b = os.path.join(ctx.out, "la%d.cpp" % std), os.path.join(ctx.out, "lb%d.cpp" % std)
        open(a, "w").write(I + "int main() {}\n"); open(b, "w").write(I + "int other() { return 1; }\n")
        r = subprocess.run(["g++", "-std=c++%d" % std, "-w", "-O0", "-I" + os.path.join(REPO, "include"), a, b, "-o", os.path.join(ctx.out, "l%d" % std), "-pthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return [{"op": "link", "hs": l, "std": std, "ok": r.returncode == 0, "code": I, "out": r.stdout[-800:] if r.returncode else ""}]

    with ThreadPoolExecutor(9) as ex:
        m = ex.submit(ctx.model_check, "StandaloneMC", "StandaloneMC.cfg", workers=2, min_states=100000)
        fs = [ex.submit(link, i) for i in range(len(stds))] + [ex.submit(header, h) for h in hs] + [ex.submit(orders, i) for i in range(ctx.scale(6, 60))]
        evs = [f.result() for f in fs]; m.result()
    traces = [{"id": i, "cfg": {"kind": "alone"}, "ev": e, "script": ("alone", [x["code"] for x in e])} for i, e in enumerate(evs)]
    for r in ctx.validate("StandaloneTrace", traces, tag="p")[:1]: ctx.confirm_and_report(r)
    ctx.need_ops(["alone", "twice", "whole", "order", "link", "macros"])
    ctx.notes["compilations"] = sum(len(e) for e in evs)
    ctx.assumptions += ["the installed compilers and standard library stand for those there are"]
