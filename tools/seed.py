"""Plants a bug: seed(id, property, file, [(old, new)...], needs, breaks, demo_cpp[, std, flags]) writes seeded/<id>/ after confirming
in a scratch copy of /repo that the change builds, passes the tests, fails its demonstration, and that the unchanged tree passes it.
Then runs the property's check against the changed copy and says whether it was caught. Used by hand only; no check uses it."""
import json, os, shutil, subprocess, sys, tempfile
W = "/tmp/seedwork"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prepare():
    if not os.path.exists(W + "/repo"):
        os.makedirs(W, exist_ok=True)
        assert sh("git clone -q /repo %s/repo && cp -r /opt/vp/harness %s/harness && sed -i s#/repo#%s/repo#g %s/harness/CMakeLists.txt && cmake -S %s/harness -B %s/build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DCMAKE_CXX_COMPILER=g++ -DCMAKE_C_COMPILER=gcc" % ((W,) * 6)).returncode == 0
    sh("cd %s/repo && git checkout -q -- . && git fetch -q && git reset -q --hard origin/HEAD" % W)


DEMO = """#!/bin/bash
# Exits 0 if the property holds for the history in demo.cpp.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s -std=c++%s -g %s -I "$PWD/include" "$d/demo.cpp" -o "$t/demo" -pthread || exit 2
cd "$t" && timeout 120 ./demo
"""


def seed(id, prop, file, prs, needs, breaks, demo, std="17", flags="-fsanitize=address,undefined -fno-sanitize-recover=all", cxx="g++", check=None, dry=False, script=None):
    prepare()
    p = W + "/repo/include/itlib/" + file
    s = open(p).read(); base = sh("git -C /repo show b0f3202:include/itlib/" + file).stdout
    for a, b in prs:
        assert s.count(a) == 1, ("not exactly once", s.count(a), a)
        s = s.replace(a, b)
    open(p, "w").write(s)
    diff = sh("git -C %s/repo diff" % W).stdout
    lines = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    new = [l for l in lines if l.strip() and l not in base.splitlines()]
    if new: print(id, "NOTE: changes lines not in the original:", new)
    if not lines: print(id, "NOTE: only adds lines")
    d = tempfile.mkdtemp(prefix="seed")
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n")); open(d + "/demo.sh", "w").write(script or DEMO % (cxx, std, flags)); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    r = sh("cd /repo && bash %s/demo.sh" % d)
    if r.returncode != 0: ok = False; print(id, "DEMO FAILS ON THE UNCHANGED TREE", r.returncode, r.stdout[-1500:])
    r = sh("cd %s/repo && bash %s/demo.sh" % (W, d))
    if r.returncode in (0, 2): ok = False; print(id, "DEMO DOES NOT SHOW THE CHANGE", r.returncode, r.stdout[-1500:])
    r = sh("ninja -C %s/build -j8" % W)
    if r.returncode: ok = False; print(id, "DOES NOT BUILD", r.stdout[-1500:])
    else:
        r = sh("python3 %s/harness/run.py %s/build" % (W, W))
        bad = [l for l in r.stdout.splitlines() if l.startswith("FAIL")]
        if bad or r.stdout.count("PASS") < 112: ok = False; print(id, "TESTS", bad, r.stdout.count("PASS"))
    if ok and not dry:
        shutil.rmtree(V + "/seeded/" + id, ignore_errors=True); shutil.copytree(d, V + "/seeded/" + id)
    shutil.rmtree(d)
    if ok:
        r = sh("python3 %s/check.py %s" % (V, check or prop), env=dict(os.environ, VERIF_REPO=W + "/repo"))
        caught = r.returncode == 1 and "VIOLATION property=%s " % (check or prop) in r.stdout
        print(id, prop, "caught" if caught else "MISSED rc=%d" % r.returncode, [l[:200] for l in r.stdout.splitlines() if "event" in l or "ERROR" in l or "rejected" in l][-3:], flush=True)
        f = V + "/out/seed_results.json"
        d = json.load(open(f)) if os.path.exists(f) else {}
        d[id] = [prop, caught]; json.dump(d, open(f, "w"), indent=0, sort_keys=True)
    sh("cd %s/repo && git checkout -q -- ." % W)
    return ok
