"""expected (C12)."""
from core import *

# name: (ref, void value, void error)
CFGS = {"A_B": (0, 0, 0), "A_int": (0, 0, 0), "int_B": (0, 0, 0), "M_N": (0, 0, 0), "S_S": (0, 0, 0), "A_A": (0, 0, 0), "U_S": (0, 0, 0), "S_int": (0, 0, 0),
        "rA_B": (1, 0, 0), "rA_int": (1, 0, 0), "crA_N": (1, 0, 0), "rA_S": (1, 0, 0), "v_B": (0, 1, 0), "v_int": (0, 1, 0), "v_N": (0, 1, 0), "v_S": (0, 1, 0),
        "A_v": (0, 0, 1), "M_v": (0, 0, 1), "int_v": (0, 0, 1), "S_v": (0, 0, 1), "rA_v": (1, 0, 1), "v_v": (0, 1, 1)}
W = dict(c_def=1, c_unexp=1.5, c_move=2, a_move=4, a_selfm=0.7, a_unexp=1.5, c_val=2, a_val=3, c_err=3, a_err=3, c_copy=2, a_copy=3, a_self=0.7, clear=1, emplace=3,
         vor=3, get=2, take=1.5, set=1.5)
MODEL_CFGS = {(0, 0, 0): ["A_B", "M_N"], (1, 0, 0): ["rA_B"], (0, 1, 0): ["v_B"], (0, 0, 1): ["A_v"], (1, 0, 1): ["rA_v"], (0, 1, 1): ["v_v"]}


def rand_script(rng, length):
    names, ws = list(W), list(W.values())
    return ["%s,%d,%d,%d,%d" % (rng.choices(names, ws)[0], rng.choice([0, 0, 0, 0, 1, 1, 2]), rng.randint(1, 2), rng.randint(0, 2), rng.randint(0, 9)) for _ in range(length)]


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "expected", ["expected_driver.cpp"], "17", (), 5, True, "-O0")
        edges = ctx.model_check("ExpectedMC", "ExpectedMC.cfg", workers=4, min_states=100)
        exe = fb.result()
    by = {}
    for s, op, t in edges: by.setdefault(tuple(int(x) for x in s[1]), []).append((s, op, t))
    scripts, cov = [], 0
    for k, es in sorted(by.items()):
        seen, ded = set(), []
        for s, op, t in es:
            q = json.dumps([s, op])
            if q not in seen: seen.add(q); ded.append((s, op, t))
        bh = 0 if k[0] else 1
        for cfg in MODEL_CFGS[k]:
            sc, n, left = edge_scripts(ded, cfg, 80, ctx.rng, [[[bh, 0], [bh, 0]], [bool(x) for x in k]])
            if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
            cov += n; scripts += sc
    ctx.notes["model_transitions_replayed"] = cov
    for cfg in CFGS:
        for i in range(ctx.scale(15, 300)): scripts.append((cfg, rand_script(ctx.rng, ctx.rng.choice([15, 40, 90]))))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("ExpectedTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("ExpectedTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops(list(W))
    ctx.assumptions += ["moving a value or an error does not throw", "values are accessed only while the alternative they belong to is held", "single-threaded use"]
