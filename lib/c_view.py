"""span, stride_span, poly_span, memory_view (C15)."""
from core import *

CFGS = {"span1": 1, "span3": 3, "span4": 4, "mem3": 3, "mem4": 4, "stride1": 1, "stride3": 3, "pref3": 3, "pval4": 4}
MEM = 60
W = dict(mk=4, set=0.7, conv=1.5, rmpre=1.5, rmsuf=1.5, resize=0.7, sub=5, first=2, last=2, copy=1, move=0.7, self=0.3, write=3, wbyte=1.5, iter=4)


def make(rng, cfg, slot):
    z = CFGS[cfg]
    kind = cfg.rstrip("134")
    n = rng.choice([0, 1, 2, 3, 5, 8, 11])
    if kind == "stride":
        how = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7, 9])
        st = rng.choice([1, 2, z, z + 1, 2 * z, 5, 7])
        if how in (3, 6, 7):
            n = max(2, min(n, MEM // z)); o = rng.randint(0, MEM - z * n)
        elif how in (4, 5):
            n = min(n, MEM // (3 * z + 2)); o = rng.randint(0, MEM - n * (3 * z + 2))
        else:
            n = min(n, (MEM - z) // st + 1); o = rng.randint(0, MEM - (st * (n - 1) + z)) if n else rng.randint(0, MEM)
        return "mk,%d,0,%d,%d,%d,%d" % (slot, how, o, st, n)
    how = rng.choice({"span": [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], "mem": [0, 1, 2, 3, 4, 5, 6, 7, 9] if slot >= 2 else [0, 1, 2, 3, 4, 5, 7, 9]}.get(kind, [0, 1, 9]))
    if how in (6, 7) and (kind, how) != ("mem", 7): n = 4
    n = min(n, MEM // z)
    o = rng.randint(0, MEM - z * n)
    if kind == "mem" and how == 2: o = max(o, z) if n < MEM // z else z; n = min(n, (MEM - o) // z)
    return "mk,%d,0,%d,%d,0,%d" % (slot, how, o, n)


def size(rng):
    return rng.choice([0, 1, 2, 3, 4, rng.randint(0, 12), rng.randint(0, 12), -1, rng.randint(-8, -1)])


def rand_script(rng, cfg, length):
    names, ws = list(W), list(W.values())
    ops = [make(rng, cfg, k) for k in range(4)]
    while len(ops) < length:
        o = rng.choices(names, ws)[0]
        d, s = rng.randint(0, 3), rng.randint(0, 3)
        if o == "mk": ops.append(make(rng, cfg, d)); continue
        if o == "set": ops.append("set,%d,%d" % (rng.randint(0, MEM), rng.randint(0, 255))); continue
        if o == "conv": ops.append("conv,%d,%d,%d" % (2 + (d & 1), s & 1, rng.randint(0, 1))); continue
        if d >= 2: s = 2 + (s & 1)
        else: s &= 1
        if o in ("rmpre", "rmsuf", "resize"): a = [rng.choice([0, 1, 2, rng.randint(0, 20)])]
        elif o == "sub": a = [size(rng), rng.choice([-99, size(rng), size(rng)])]
        elif o in ("first", "last"): a = [size(rng)]
        elif o == "write": a = [rng.randint(0, 20), rng.randint(0, 7), rng.randint(0, 255)]
        elif o == "wbyte": a = [rng.randint(0, 50), rng.randint(0, 255)]
        elif o == "iter": a = [rng.randint(0, 23) for _ in range(3)] + [rng.randint(0, 7), rng.randint(0, 7)]
        else: a = []
        ops.append(",".join([o, str(d), str(s)] + [str(x) for x in a]))
    return (cfg, ops)


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "view", ["view_driver.cpp"], "17", (), 4, True, "-O0")
        edges = ctx.model_check("ViewsMC", "ViewsMC.cfg", workers=4, min_states=30)
        exe = fb.result()
    scripts, cov = [], 0
    for cfg in CFGS:
        ed = edges if cfg.startswith("stride") else [e for e in edges if e[0][1] == 1 and e[2][1] == 1]
        z = CFGS[cfg]
        def tr(op):     # the model counts in elements
            return ["mk", 0, 0, 0, op[4] * z, op[5] * z, op[6]] if op[0] == "mk" else op
        sc, n, left = edge_scripts([(s, tr(o), t) for s, o, t in ed], cfg, 80, ctx.rng, [0, 1, 0])
        if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
        cov += n; scripts += sc
    ctx.notes["model_transitions_replayed"] = cov
    # every pair of positions of views of every length
    for cfg in CFGS:
        for n in range(0, 6):
            ops = ["mk,0,0,0,6,%d,%d" % (CFGS[cfg], n), "mk,2,0,0,6,%d,%d" % (CFGS[cfg] + 1, n)]
            for d in (0, 2):
                for i in range(n + 1):
                    for j in range(n + 1): ops.append("iter,%d,%d,%d,%d,%d,%d,%d" % (d, d, i, j, ctx.rng.randint(0, n), ctx.rng.randint(0, 7), ctx.rng.randint(0, 7)))
            scripts.append((cfg, ops))
    for cfg in CFGS:
        for i in range(ctx.scale(40, 600)): scripts.append(rand_script(ctx.rng, cfg, ctx.rng.choice([15, 40, 80])))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("ViewsTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("ViewsTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops(list(W))
    ctx.assumptions += ["viewed memory outlives the view", "element removals and resets name no more elements than there are", "strides are positive", "single-threaded use"]
