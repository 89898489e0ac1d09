"""Mutation campaign: camp.py HEADER N [seed]"""
import os, random, re, subprocess, sys, glob, json, shutil
R = os.environ.get("CAMP", "/tmp/camp")
sh = lambda c, t=900, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
MAP = dict(small_vector="C01 C02 C03 C04 C28", static_vector="C05 C03 C04 C28", pod_vector="C06 C07", flat_map="C08 C28", flat_set="C09", dynamic_bitset="C10", any="C11", expected="C12",
  mem_streambuf="C13 C14", rstream="C14", span="C15 C28", stride_span="C15 C28", poly_span="C15 C28", memory_view="C15 C28", atomic_shared_ptr_storage="C16", mutex="C17", data_mutex="C18", generator="C19",
  atomic="C20", qalgorithm="C21", sentry="C22", ufunction="C22", make_ptr="C22", shared_from="C22", time_t="C23", strutil="C24", throw_ex="C25", pmr_allocator="C26", transparent_umap="C27", utility="C29", type_traits="C29")
def prepare():
    shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
    assert sh("git clone -q /repo {0}/repo && git clone -q /verif {0}/verif && cp -r /opt/vp/harness {0}/harness && sed -i s#/repo#{0}/repo#g {0}/harness/CMakeLists.txt && cmake -S {0}/harness -B {0}/build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc && ninja -C {0}/build".format(R)).returncode == 0
OPS = [(r"(?<![<>=\-])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
  (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
  (r"std::move\(([\w.]+)\)", r"\1"), (r"!(?=[\w(])", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\bbegin\b", "end"), (r"std::forward<(\w+)>\((\w+)\)(?!\.)", r"\2"), (r" / ", " * "), (r" % ", " / "), (r" << ", " >> "), (r" & ", " | "), (r" \| ", " & "), (r"\|=", "="), (r"memory_order_(acquire|release|acq_rel)", "memory_order_relaxed"), (r" \? (.+?) : (.+?);", r" ? \2 : \1;")]
def mutants(lines):
    out = []; incom = False
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//") or s.startswith("#") or s.startswith("*") or not s or "static_assert" in s or s.startswith("assert") or "= default" in s or "std::move(init)" in s or s.startswith("template") or s.startswith("using ") or "include" in s: continue
        code = l.split("//")[0]
        for p, r in OPS:
            for m in re.finditer(p, code):
                if p.startswith("(?<!") and re.search(r"(template|cast|<\w+\s*$)", code[:m.start()]) and ("template" in code or "_cast" in code): continue
                n = code[:m.start()] + m.expand(r) + code[m.end():]
                if n != code: out.append((i, n.rstrip() + "\n", "%s -> %s" % (m.group(0).strip(), m.expand(r).strip())))
        if re.match(r"^\s+[\w:*>.\-\[\]()+&<~ ]+(\(.*\)| = .*|\+\+|--|[-+|&^]= .*);\s*$", code) and not re.match(r"^\s+(return|typename|auto|const|using|static|friend|explicit|virtual)\b", code) or re.match(r"^\s+(\+\+|--)\w+;\s*$", code): out.append((i, "\n" if not code.strip().startswith("}") else code, "delete"))
        if re.match(r"^\s+if \(.*\)\s*$", code) or re.match(r"^\s+if \(.*\) (return|throw|break|continue)[^;]*;\s*$", code):
            out.append((i, re.sub(r"if \(", "if (false && ", code, 1).replace("if (false && ", "if (false && (",1).rstrip() + "\n", "never"))
    return out
def main(h, n, seed=1):
    f = R + "/repo/include/itlib/%s.hpp" % h; orig = open(f).read(); lines = orig.splitlines(True)
    start = next(i for i, l in enumerate(lines) if l.startswith("namespace"))
    ms = [m for m in mutants(lines) if m[0] >= start]
    # "never": close the parenthesis
    fixed = []
    for i, t, d in ms:
        if d == "never":
            depth = 0; k = t.index("(false && (") + 10; j = k
            for j in range(k, len(t)):
                depth += t[j] == "("; depth -= t[j] == ")"
                if depth == 0: break
            # t[j] closes the added one; the original one follows
            t = t[:j] + ")" + t[j:]
        fixed.append((i, t, d))
    random.Random(seed).shuffle(fixed)
    def syntax(x):
        std = re.search(r"-(\d\d)\.cpp", x).group(1)
        return sh("g++ -std=c++%s -DDOCTEST_CONFIG_USE_STD_HEADERS -fsyntax-only -w -I%s/repo/include -I%s/repo/test %s" % (std, R, R, x)).returncode == 0
    open(f, "w").write(orig)
    tests = [x for x in glob.glob(R + "/repo/test/t-%s-*.cpp" % h) if syntax(x)]
    print(h, "tests", len(tests), flush=True)
    done = 0; tried = 0; killed = 0; missed = []
    for i, t, d in fixed:
        if done >= n: break
        L = list(lines); L[i] = t; open(f, "w").write("".join(L)); tried += 1
        bad = False
        for x in tests: bad = bad or not syntax(x)
        if bad: continue
        try:
            r = sh("ninja -C %s/build -j8" % R)
            if r.returncode: continue
            r = sh("timeout 60 python3 %s/harness/run.py %s/build" % (R, R), t=120)
        except subprocess.TimeoutExpired: continue
        if any(l.startswith("FAIL") for l in r.stdout.splitlines()) or r.stdout.count("PASS") < 112: killed += 1; continue
        done += 1; caught = None
        for c in MAP[h].split():
            r = sh("timeout 880 python3 check.py %s" % c, cwd=R + "/verif", env=dict(os.environ, VERIF_REPO=R + "/repo", VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode == 1 and "VIOLATION property=" in r.stdout: caught = c; break
            if r.returncode not in (0, 1): caught = "RC%d %s" % (r.returncode, c); break
        if not caught or caught.startswith("RC"):
            missed.append((i + 1, d)); print("MISSED" if not caught else caught, h, i + 1, d, "|", lines[i].strip(), "=>", t.strip(), flush=True)
    open(f, "w").write(orig)
    print("DONE", h, "mutants", len(fixed), "tried", tried, "killed by tests", killed, "checked", done, "missed", len(missed), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "prepare": prepare()
    else: main(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 1)
