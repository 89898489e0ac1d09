"""any (C11)."""
from core import *

CFGS = ["ba", "bc", "be", "dflt", "pmr"]
W = dict(c_def=0.5, c_al=1, c_copy=2, c_copyn=1, c_copya=2, c_move=2, a_copy=3, a_move=3, a_self=1, a_selfm=0.7, cfrom=1.5, cfrom_self=0.7, swap=1.5, reset=1,
         c_val=4, a_val=5, c_vala=3, a_own=2, empl=4, cast=6, set=3, null=0.2)


def rand_script(rng, length):
    names, ws = list(W), list(W.values())
    ops, ty = [], [0, 0, 0]
    for _ in range(length):
        n = rng.choices(names, ws)[0]
        o, q, t = rng.randint(1, 3), rng.randint(0, 1), rng.choice([0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
        if n in ("cast", "set", "a_own") and rng.random() < 0.6 and ty[o - 1]: t = ty[o - 1] - 1
        fz = rng.choice([0] * 8 + [1, 1, 2, -1, -1])
        if n in ("swap",): fz = 0
        if n in ("c_val", "c_vala", "a_val", "empl"): ty[o - 1] = t + 1
        ops.append(",".join(str(x) for x in (n, fz, o, q, t, rng.randint(0, 3), rng.randint(0, 7), rng.randint(0, 1))))
    return ops


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "any", ["any_driver.cpp"], "17", (), 3, True, "-O0")
        edges = ctx.model_check("AnyMC", "AnyMC.cfg", workers=4, min_states=150)
        exe = fb.result()
    seen, ded = set(), []
    for s, op, t in edges:
        k = json.dumps([s, op])
        if k not in seen: seen.add(k); ded.append((s, op, t))
    sc, n, left = edge_scripts(ded, "ba", 80, ctx.rng, [[[0, -1, 1], [0, -1, 1]]])
    if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
    ctx.notes["model_transitions_replayed"] = n
    scripts = list(sc)
    for cfg in CFGS:
        for i in range(ctx.scale(60, 900)): scripts.append((cfg, rand_script(ctx.rng, ctx.rng.choice([15, 40, 90]))))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("AnyTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("AnyTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops(list(W))
    ctx.assumptions += ["moving a held object does not throw", "single-threaded use"]
