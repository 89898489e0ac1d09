"""binding.py ID [N]: corrupts one field of recorded traces at a time and lets the trace specification judge them.
Prints, per operation and field, how many of the corruptions it accepts."""
import collections, copy, json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import core, registry
N = int(sys.argv[2]) if len(sys.argv) > 2 else 4000
orig = core.Ctx.validate
rng = random.Random(7)
stat = collections.defaultdict(lambda: [0, 0, None])

def leaves(x, path, out, vals):
    if isinstance(x, dict):
        for k in x:
            if path == () and k == "op": continue
            leaves(x[k], path + (k,), out, vals)
    elif isinstance(x, list):
        out.append((path, "list"))
        for i, y in enumerate(x): leaves(y, path + (i,), out, vals)
    else:
        out.append((path, type(x).__name__))
def get(e, p):
    for k in p: e = e[k]
    return e
def put(e, p, v):
    for k in p[:-1]: e = e[k]
    e[p[-1]] = v
def gen(p): return ".".join("*" if isinstance(k, int) else k for k in p)
def corrupt(t, vals):
    ev = t["ev"]
    k = rng.randrange(len(ev)); out = []
    leaves(ev[k], (), out, vals)
    if not out: return None
    byf = {}
    for p, ty in out: byf.setdefault((gen(p), ty), []).append(p)   # every field equally often, not every list element
    f, ty = rng.choice(sorted(byf)); p = rng.choice(byf[(f, ty)])
    e = copy.deepcopy(ev[k]); x = get(e, p)
    if ty == "int": v = x + rng.choice([1, 1, -1]) if rng.random() < 0.7 else rng.choice(vals[f] or [x + 1])
    elif ty == "bool": v = not x
    elif ty == "str": v = rng.choice(vals[f] or [""])
    elif ty == "list":
        if not x: return None
        v = list(x); i = rng.randrange(len(v))
        if rng.random() < 0.5: del v[i]
        else: v.insert(i, v[i])
        f += "[]"
    else: return None
    if v == x: return None
    put(e, p, v)
    n = dict(t); n["ev"] = ev[:k] + [e] + ev[k + 1:k + 25]; n["what"] = (ev[k]["op"] + ("/" + ev[k]["f"] if isinstance(ev[k].get("f"), str) else ""), f, k, x, v)
    return n
def validate(self, module, traces, cfg=None, env=None, shards=4, workers=2, timeout=800, xmx="3g", count=True, tag="v"):
    r = orig(self, module, traces, cfg, env, shards, workers, timeout, xmx, count, tag)
    if not count: return r
    vals = collections.defaultdict(list)
    for t in rng.sample(traces, min(200, len(traces))):
        for e in t["ev"][:50]:
            o = []; leaves(e, (), o, None)
            for p, ty in o:
                if ty in ("str", "int") and len(vals[gen(p)]) < 60: vals[gen(p)].append(get(e, p))
    short = [t for t in traces if t["ev"] and (env or 1)]
    muts = []
    while len(muts) < N:
        t = rng.choice(short)
        if len(t["ev"]) > 60:
            t = dict(t); t["ev"] = t["ev"][:60]
        m = corrupt(t, vals)
        if m: muts.append(m)
    d = self.out + "/bind"; os.makedirs(d, exist_ok=True)
    src = open(core.SPEC + "/" + (cfg or module + ".cfg")).read()
    open(d + "/Bind%s.tla" % module, "w").write("---- MODULE Bind%s ----\nEXTENDS %s\nAcc == l > Len(Traces[tid].ev) => PrintT(<<\"ACC\", tid>>)\n====\n" % (module, module))
    open(d + "/b.cfg", "w").write(src.replace("CHECK_DEADLOCK TRUE", "CHECK_DEADLOCK FALSE") + "\nCONSTRAINT Acc\n")
    alive = list(range(len(muts))); acc = set()
    CH = 500
    for c0 in range(0, len(muts), CH):
        alive = list(range(c0, min(c0 + CH, len(muts))))
        while alive:
            f = d + "/t.ndjson"
            with open(f, "w") as fh:
                for i in alive: fh.write(json.dumps({"cfg": muts[i]["cfg"], "ev": muts[i]["ev"]}) + "\n")
            e = dict(os.environ); e.update(env or {}); e["TRACES"] = f
            p = subprocess.run(["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-DTLA-Library=" + core.SPEC, "-cp", core.TLA_CP, "tlc2.TLC", "-metadir", d + "/m", "-workers", "6", "-noGenerateSpecTE", "-config", d + "/b.cfg", "Bind" + module],
                               cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if "No error has been found" in p.stdout:
                acc |= {alive[int(x) - 1] for x in re.findall(r'<<"ACC", (\d+)>>', p.stdout)}
                break
            ts = re.findall(r"(?:/\\ )?tid = (\d+)", p.stdout)
            if not ts: print(p.stdout[-3000:]); sys.exit(2)
            # evaluating the corrupted event failed: rejected
            del alive[int(ts[-1]) - 1]
    for i, m in enumerate(muts):
        s = stat[(module, m["what"][0], m["what"][1])]; s[0] += 1
        if i in acc:
            s[1] += 1
            if s[2] is None or rng.random() < 0.3: s[2] = (m["what"][3], m["what"][4], json.dumps(m["ev"][m["what"][2]])[:400])
    return r
core.Ctx.validate = validate
if __name__ == "__main__":
    pid = sys.argv[1]
    ctx = core.Ctx(pid)
    try: registry.CHECKS[pid](ctx)
    except core.Violated: pass
    tot = sum(s[0] for s in stat.values()); a = sum(s[1] for s in stat.values())
    with open(V + "/out/binding-%s.txt" % pid, "w") as o:
        print("%s: %d corruptions, %d accepted" % (pid, tot, a)); o.write("%d corruptions, %d accepted\n" % (tot, a))
        for k, s in sorted(stat.items(), key=lambda z: -z[1][1]):
            if s[1]: o.write("%-14s %-12s %-16s %d/%d  %s -> %s   %s\n" % (k + (s[1], s[0]) + s[2]))
    import shutil; shutil.rmtree(ctx.out, ignore_errors=True)
