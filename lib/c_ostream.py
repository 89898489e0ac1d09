"""mem_ostreambuf (C13)."""
from core import *

CFGS = ["vec", "str", "small", "stat", "pod", "wstr", "wvec", "u16", "u16vec", "u32"]
W = dict(new=1, putc=4, sputc=4, write=3, sputn=4, fmt=2, seekpos=2, seekoff=3, seekp=2, seekpd=3, tellp=1, clear=1, sclear=3, flush=0.3, get=1.5, sw=1.5, cc=0.7, mc=0.7, ac=0.7, am=0.7, asc=0.3, asm=0.3)


def rand_script(rng, cfg, length, big):
    names, ws = list(W), list(W.values())
    ops, n, p = [], 0, 0
    for _ in range(length):
        o = rng.choices(names, ws)[0]
        if o in ("putc", "sputc"): a = [rng.randint(0, 7)]; k = 1
        elif o in ("write", "sputn"): k = rng.choice([0, 1, 2, 3, rng.randint(0, big)]); a = [k, rng.randint(0, 7)]
        elif o == "fmt": a = [rng.randint(0, 9999)]; k = len(str(a[0]))
        elif o in ("seekpos", "seekp"): a = [rng.choice([0, n, p, n // 2, n + 1, -1, rng.randint(0, n + 2)])]; k = 0
        elif o in ("seekoff", "seekpd"): a = [rng.choice([0, 0, 1, -1, -2, rng.randint(-n - 1, n + 1), 0]), rng.randint(0, 2)]; k = 0
        elif o == "new": a = [rng.choice([0, 1, 5, 12])]; n = p = k = 0
        else:
            a, k = [], 0
            if o in ("clear", "get", "mc", "am"): n = p = 0
            if o == "sw": n = p = rng.randint(0, 8)
        n = p = max(n, p + k) if k else n     # a guess is enough here
        ops.append(",".join([o] + [str(x) for x in a]))
    return (cfg, ops)


def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        fb = ex.submit(ctx.build, "os", ["ostream_driver.cpp"], "17", (), 4, True, "-O0")
        fp = ex.submit(ctx.model_check, "FileOutMC", "FileOutPair.cfg", workers=3, min_states=300)
        edges = ctx.model_check("FileOutMC", "FileOutMC.cfg", workers=4, min_states=300)
        pairs = fp.result()
        exe = fb.result()
    def once(edges):
        seen, ded = set(), []
        for s, op, t in edges:
            k = json.dumps([s, op])
            if k not in seen: seen.add(k); ded.append((s, op, t))
        return ded
    scripts, cov, start = [], 0, [[], 0, False, False]
    def walks(edges, cfgs):
        nonlocal cov
        ded = once(edges)
        for cfg in cfgs:
            sc, n, left = edge_scripts(ded, cfg, 80, ctx.rng, [start, start])
            if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
            cov += n; scripts.extend(sc)
    walks(edges, ctx.scale(["vec", "small"], ["vec", "small", "str", "u16vec"]))
    walks(pairs, ctx.scale(["str", "small"], ["str", "small", "vec", "pod", "stat", "wstr"]))
    ctx.notes["model_transitions_replayed"] = cov
    for cfg in CFGS:
        for i in range(ctx.scale(30, 400)): scripts.append(rand_script(ctx.rng, cfg, ctx.rng.choice([15, 40, 80]), ctx.rng.choice([6, 12, 60])))
    # blocks longer than 16 bits count
    for cfg in ["u16", "vec", "wstr", "u16vec"]:
        scripts.append((cfg, ["sputn,3,0", "sputn,66000,1", "tellp", "sputc,3", "seekoff,-2,1", "sputc,1", "get", "sputn,2,2", "get"]))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("FileOutTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("FileOutTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops(list(W))
    ctx.assumptions += ["containers meet the documented requirements", "a written block does not lie in the stream's own container", "single-threaded use"]
