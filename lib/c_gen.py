"""generator (C19)."""
from core import *

TYPES = ["int", "mo", "str", "up", "ref", "cref"]


def program(rng, ty):
    ops = []
    def prog():
        return [rng.choices([1, 2, 3, 10 + rng.randint(0, 60)], [3, 0.7, 1, 7])[0] for _ in range(rng.randint(0, 6))]
    for _ in range(rng.randint(5, 60)):
        o = rng.choices(["new", "next", "begin", "inc", "deref", "take", "for", "loop", "move", "assign", "swap", "reset", "drop", "done"], [6, 8, 4, 8, 3, 1.5, 4, 1.5, 3, 3, 3, 1, 1.5, 1])[0]
        g, h = rng.randint(0, 3), rng.randint(0, 3)
        if o == "for": h = rng.choice([-1, 1, 2, 3])
        ops.append(",".join(map(str, [o, g, h] + (prog() if o == "new" else []))))
    return (ty, ops)


def run(ctx):
    with ThreadPoolExecutor(6) as ex:
        a = ex.submit(ctx.build, "g", ["gen_driver.cpp"], "20")
        b = ex.submit(ctx.build, "gc", ["gen_driver.cpp"], "20", (), None, True, "-O1", "clang++")
        m = ex.submit(ctx.model_check, "GeneratorMC", "GeneratorMC.cfg", workers=3, min_states=2000)
        edges, ea, eb = m.result(), a.result(), b.result()
    rng = ctx.rng
    sc, n, left = edge_scripts(edges, "x", 200, rng, [[], []])
    if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
    ctx.notes["model_transitions_replayed"] = n
    jobs = [(ea, [("mo", o) for _, o in sc], "a"), (eb, [(ty, o) for k, (_, o) in enumerate(sc) for ty in [TYPES[k % 6]]][::ctx.scale(2, 1)], "b")]
    for e, c in ((ea, "c"), (eb, "d")): jobs.append((e, [program(rng, ty) for ty in TYPES for _ in range(ctx.scale(60, 1000))], c))
    judge(ctx, "GeneratorTrace", jobs)
    ctx.need_ops(["new", "next", "begin", "inc", "deref", "take", "for", "loop", "move", "assign", "swap", "reset", "drop", "done", "End"])
    ctx.assumptions += ["generated values move without throwing"]
