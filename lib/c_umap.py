"""transparent_umap (C27)."""
from core import *

CFGS = {"obj": (1, [0, 1, 2, 3, 4, 7]), "tens": (10, [0, 1, 2, 3, 4, 5, 7]), "mo": (10, [0, 1, 2, 3, 4, 5, 7]), "str": (1, [0, 1, 2, 3, 4]), "strplain": (1, [0, 1, 6]),
        "plain": (1, [0, 1, 6]), "halfh": (1, [0, 1, 6]), "halfe": (1, [0, 1, 6]), "opaque": (1, [0, 1, 2, 3, 4, 7])}
KEYED = dict(te=8, te0=3, teh=4, teh0=2, idx=4, idxset=5, at=4, cat=4, atset=3, find=4)
OTHER = dict(ins=4, emp=3, ioa=3, er=6, clear=0.3, rehash=1.5, obs=2, c_il=1, c_copy=1, a_copy=1, c_move=1, a_move=1, swap=1, eq=2)


def rand_script(rng, cfg, length, keys):
    eq, kinds = CFGS[cfg]
    w = dict(KEYED); w.update(OTHER)
    names, ws = list(w), list(w.values())
    ops = []
    for _ in range(length):
        n = rng.choices(names, ws)[0]
        kk = rng.choice(kinds) if n in KEYED else 0
        k = rng.randint(0, keys)
        if kk == 5: k //= 10
        v = rng.choice([rng.randint(0, 60), rng.randint(0, 60), rng.randint(0, 60), 77])
        if cfg in ("strplain", "opaque") and v == 77: v = 7
        a = [rng.choice([1, 1, 2]), kk, k, v, rng.randint(0, 40)]
        if n == "c_il": a = a[:4] + [rng.randint(0, keys) for _ in range(rng.choice([0, 1, 2, 2, 3, 7]))]
        ops.append(",".join([n] + [str(x) for x in a]))
    return (cfg, ops)


def run(ctx):
    with ThreadPoolExecutor(6) as ex:
        a = ex.submit(ctx.build, "u", ["umap_driver.cpp"], "20")
        b = ex.submit(ctx.build, "uc", ["umap_driver.cpp"], "20", (), None, True, "-O1", "clang++")
        m = ex.submit(ctx.model_check, "UMapMC", "UMapMC.cfg", workers=4, min_states=1500)
        edges, ea, eb = m.result(), a.result(), b.result()
    jobs, total = [], 0
    for e, cfg, eq in ((ea, "tens", 10), (eb, "obj", 1)) + (((eb, "mo", 10), (ea, "str", 1)) if ctx.thorough else ()):
        ed = [([s[1], op, t[1]]) for s, op, t in ((x[0], x[1], x[2]) for x in edges) if s[0] == eq and (op[2] in CFGS[cfg][1]) and not (cfg == "mo" and "copy" in op[0])]
        sc, n, left = edge_scripts([(canon(s), o, canon(t)) for s, o, t in ed], cfg, 60, ctx.rng, [[], []])
        if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
        total += n
        jobs.append((e, sc, "m" + cfg))
    ctx.notes["model_transitions_replayed"] = total
    for e, c in ((ea, "r"), (eb, "s")):
        jobs.append((e, [rand_script(ctx.rng, cfg, ctx.rng.choice([15, 40, 100]), ctx.rng.choice([5, 25, 69])) for cfg in CFGS for _ in range(ctx.scale(40, 800))], c))
    judge(ctx, "UMapTrace", jobs)
    ctx.need_ops(list(KEYED) + list(OTHER))
    ctx.assumptions += ["hashes and equalities agree with each other for all key types", "a key can be made of the values given, and moving a value does not throw"]


def canon(s): return [sorted(x) for x in s]
