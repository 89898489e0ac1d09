"""flat_map and flat_set (C08, C09)."""
from core import *

MAPS = ["map_int_int_Ord_vec", "map_int_str_lessm_vec", "map_KStr_int_Ord_vec", "map_int_uptr_Ord_vec", "map_int_int_Ord_deq", "map_int_str_Ord_small", "map_int_int_Ord_stv", "map_int_str_Ord_stv5", "map_KMo_str_Ord_vec", "map_KMo_uptr_lessm_small"]
SETS = ["set_int_Ord_vec", "set_KStr_lesss_vec", "set_KStr_Ord_vec", "set_int_Ord_small", "set_KStr_Ord_deq", "set_int_Ord_stv", "set_int_Ord_stv5", "set_int_lesss_vec", "set_KMo_Ord_vec", "set_KMo_lesss_stv5"]
LOOK = ["find", "cfind", "lb", "clb", "ub", "cub", "eqr", "ceqr", "cnt", "rm"]
COMMON = dict(c_def=0.5, c_vec=1.5, c_range=1.5, c_il=1, c_copy=1, a_copy=1, a_self=0.3, c_move=1, a_move=1, swap=1, clear=0.5, reserve=1, ins=8, insm=6, insp=4, empl=6,
              inself=2, rmself=1.5, rmi=2, rmci=2, mod=0.5, modrm=0.5, eq=2, obs=3, **{n: 2 for n in LOOK})
MAPONLY = dict(idx=4, idxm=4, idxset=5, idxself=1, at=3, cat=3, atset=3, setv=2)


def rand_script(rng, cfg, length, keys):
    w = dict(COMMON)
    if cfg.startswith("map"): w.update(MAPONLY)
    names, ws = list(w), list(w.values())
    ops = []
    for _ in range(length):
        n = rng.choices(names, ws)[0]
        a = [rng.choice([1, 1, 2])]
        k = lambda: rng.randint(0, keys)
        if n == "c_def": a += [rng.randint(0, 2)]
        elif n in ("c_vec", "c_range", "c_il"): a += [rng.randint(0, 2)] + [k() for _ in range(rng.choice([0, 1, 2, 3, 4, rng.randint(5, 24)]) if n == "c_il" else rng.choice([0, 1, 2, 3, 6, rng.randint(0, 40)]))]
        elif n in LOOK: kk = rng.choice([0, 0, 1, 2]); a += [kk, k() if kk < 2 else k() // 10]
        elif n in ("rmself", "rmi", "rmci", "inself", "modrm", "idxself", "setv"): a.append(rng.randint(0, 60))
        elif n in ("ins", "insm", "insp", "empl", "idx", "idxm", "idxset", "at", "cat", "atset"): a.append(k())
        elif n in ("reserve", "swap"): a.append(rng.randint(0, 12))
        ops.append(",".join([n] + [str(x) for x in a]))
    return (cfg, ops)


def run(ctx, is_map):
    cfgs = MAPS if is_map else SETS
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "flat", ["flat_driver.cpp"], "17", (), 8, True, "-O0")
        edges = ctx.model_check("SortedUniqueMC", "SortedUniqueMC.cfg", workers=4, min_states=500)
        exe = fb.result()
    seen, ded = set(), []
    for s, op, t in edges:
        if not is_map and op[0] in MAPONLY: continue
        k = json.dumps([s, op])
        if k not in seen: seen.add(k); ded.append((s, op, t))
    scripts = []
    for cfg in ["map_int_int_Ord_vec"] if is_map else ["set_KStr_Ord_vec"]:
        sc, n, left = edge_scripts(ded, cfg, 60, ctx.rng, [[[], []], [0, 0]])
        if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
        ctx.notes["model_transitions_replayed"] = n
        scripts += sc
    for cfg in cfgs:
        for i in range(ctx.scale(25, 400)):
            scripts.append(rand_script(ctx.rng, cfg, ctx.rng.choice([15, 40, 90]), ctx.rng.choice([6, 25, 69])))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("FlatTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("FlatTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops(list(COMMON) + (list(MAPONLY) if is_map else []))
    ctx.assumptions += ["comparators are strict weak orderings that do not throw", "single-threaded use"]
