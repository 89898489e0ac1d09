"""small_vector and static_vector (C01-C05)."""
from core import *

# op -> number of arguments after the object number
ARGS = dict(c_def=0, c_n=1, c_fill=1, c_range=1, c_il=1, c_copy=0, c_copya=0, c_move=0, c_conv=1, a_copy=0, a_move=0, a_self=0, a_selfm=0,
            as_fill=1, as_range=1, as_il=1, push=0, pushm=0, push_self=1, emplb=0, emplb_self=1, ins=1, insm=1, ins_self=2, ins_fill=2,
            ins_fill_self=3, ins_range=2, ins_il=2, empl=1, empl_self=2, er=1, er_range=2, pop=0, clear=0, res=1, res_v=1, res_self=2,
            reserve=1, shrink=0, revert=0, swap=1, set=1, eq=0, eqx=0, obs=0, max=0, bad_ins=1, bad_er=1, ins_huge=2, pop_empty=0)
SMALL_ONLY = {"c_copya", "reserve", "shrink", "revert", "bad_ins", "bad_er"}
STATIC_ONLY = {"c_conv", "ins_huge", "pop_empty"}
COUNT_FIRST = {"c_n", "c_fill", "c_range", "c_il", "c_conv", "as_fill", "as_range", "as_il", "res", "res_v", "res_self", "reserve"}
COUNT_SECOND = {"ins_fill", "ins_range", "ins_il", "ins_fill_self"}
W = dict(push=6, pushm=4, emplb=4, ins=4, insm=3, empl=3, ins_self=3, push_self=3, er=5, er_range=4, pop=3, obs=3, reserve=2, shrink=2, revert=2,
         ins_fill=3, ins_range=3, eq=2, eqx=1, res=2, res_v=2, max=0.2, bad_ins=0.5, bad_er=0.7, clear=1, c_n=0.7, c_fill=0.7)


def rand_script(rng, cfg, length, sizes, small, big=False, exc=None):
    names = [n for n in ARGS if n not in (STATIC_ONLY if small else SMALL_ONLY)]
    ws = [W.get(n, 1) for n in names]
    sc = int(cfg.split("_")[2])
    lim = sizes or sc + 4
    ops = []
    for _ in range(length):
        n = rng.choices(names, ws)[0]
        a = [1 if rng.random() < 0.7 else 2]
        for i in range(ARGS[n]):
            if (n in COUNT_FIRST and i == 0) or (n in COUNT_SECOND and i == 1):
                a.append(rng.choice([0, 1, 2, 3, sc - 1 if sc else 0, sc, sc + 1, rng.randint(0, lim)]) if n not in COUNT_SECOND else rng.choice([0, 1, 1, 2, 3, rng.randint(0, max(1, lim // 2))]))
                a[-1] = max(0, a[-1])
            else: a.append(rng.randint(0, 60))
        if exc and rng.random() < exc:
            ops.append("fuse,%d" % rng.choice([0, 0, 1, 1, 2, 3, 4, rng.randint(0, 8)]) if rng.random() < 0.7 or not small else "afuse,0")
        ops.append(",".join([n] + [str(x) for x in a]))
    return (cfg, ops)


SMALL_ALL = ["small_elem_1_0", "small_elem_1_2", "small_elem_2_0", "small_elem_2_2", "small_elem_2_3", "small_elem_5_3", "small_elem_8_9", "small_elem_16_0",
             "small_int_1_0", "small_int_1_2", "small_int_2_0", "small_int_2_2", "small_int_2_3", "small_str_4_2", "small_str_2_3", "small_wide_3_2",
             "small_uptr_2_0", "small_uptr_4_5", "smalld_int_4_3", "smalld_str_16_0", "small_elem_0_0", "small_int_0_1", "small_fixed_2_0", "small_fixed_4_3", "small_odd_3_2", "small_hotelem_2_2", "small_hotelemm_3_0",
             "small_jumpelem_2_2", "small_jumpelemm_3_0", "small_onlyelem_2_0", "small_onlyelem_4_5"]
STATIC_ALL = ["static_elem_1", "static_elem_3", "static_elem_8", "static_int_3", "static_str_4", "static_uptr_5", "static_wide_4", "static_int_40", "static_int_300", "static_fixed_4", "static_odd_4", "static_hotelem_4", "static_hotelemm_3", "static_jumpelem_3", "static_jumpelemm_5", "static_onlyelem_4"]


def spec_scripts(ctx, elem_kinds):
    """Walks covering every printed transition of the model, per configuration, on each element kind given."""
    edges = ctx.model_check("SmallVectorMC", "SmallVectorMC.cfg", workers=4, min_states=500)
    by = {}
    for s, op, t in edges: by.setdefault(s[0], []).append((s, op, t))
    res, cov = [], 0
    for cf, es in sorted(by.items()):
        init = [cf, [[0, True, cf // 10], [0, True, cf // 10]]]
        seen, ded = set(), []
        for s, op, t in es:       # one representative per (state, operation)
            k = json.dumps([s, op])
            if k not in seen: seen.add(k); ded.append((s, op, t))
        for ek in elem_kinds:
            sc, n, left = edge_scripts(ded, "small_%s_%d_%d" % (ek, cf // 10, cf % 10), 60, ctx.rng, init)
            if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
            cov += n; res += sc
    ctx.notes["model_transitions_replayed"] = cov
    return res


def run(ctx, focus, small=True, static=False):
    pid = ctx.pid
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "vec", ["vec_driver.cpp"], "17", (), 8, True, "-O0")
        scripts = []
        if small and pid in ("C01", "C02", "C03"):
            kinds = {"C01": ["int"], "C02": ["int"], "C03": ["elem"]}[pid] if not ctx.thorough else ["int", "elem"]
            scripts += spec_scripts(ctx, kinds)
        exe = fb.result()
    rng = ctx.rng
    cfgs = (SMALL_ALL if small else []) + (STATIC_ALL if static else [])
    n = ctx.scale(14, 150)
    exc = 0.45 if focus == "EXC" else None
    for cfg in cfgs:
        if focus in ("MEM", "EXC") and "elem" not in cfg and focus == "EXC": continue
        k = n * (3 if "elem" in cfg and focus in ("MEM", "EXC") else 1) * (3 if focus == "EXC" else 1)
        for i in range(k):
            scripts.append(rand_script(rng, cfg, rng.choice([15, 40, 90]), rng.choice([0, 0, 12, 40]), cfg.startswith("small"), exc=exc))
    if static:   # every short history at every fill level: the bounds of a bounded vector
        for cfg in STATIC_ALL:
            cap = int(cfg.split("_")[2])
            for fill in range(0, min(cap, 8) + 1):
                for nm in ARGS:
                    if nm in SMALL_ONLY: continue
                    for rep in range(ctx.scale(2, 6)):
                        a = [rng.randint(0, cap + 3) for _ in range(ARGS[nm])]
                        pre = ["as_range,1,%d" % fill, "as_range,2,%d" % rng.randint(0, cap)]
                        scripts.append((cfg, pre + [",".join([nm, "1"] + [str(x) for x in a]), "obs,1", "obs,2"]))
    if focus == "EXC":   # a throw at every construction of every operation, from a few states
        for cfg in [c for c in cfgs if "elem" in c]:
            sm = cfg.startswith("small"); sc = int(cfg.split("_")[2])
            for nm in ARGS:
                if nm in (STATIC_ONLY if sm else SMALL_ONLY) or nm in ("obs", "max", "eqx"): continue
                for size in sorted({0, 1, 2, sc, sc + 1, sc + 2} if sm else {0, 1, sc - 1, sc} - {-1}):
                    for f in range(ctx.scale(4, 8)):
                        a = [rng.randint(0, sc + 3) for _ in range(ARGS[nm])]
                        pre = ["as_range,1,%d" % size, "as_range,2,%d" % rng.randint(0, sc + (2 if sm else 0))]
                        if sm and rng.random() < 0.3: pre.append("reserve,1,%d" % (sc + 4))
                        scripts.append((cfg, pre + ["fuse,%d" % f, ",".join([nm, "1"] + [str(x) for x in a]), "push,1", "ins,1,0", "eq,1"]))
                    if sm: scripts.append((cfg, pre + ["afuse,0", ",".join([nm, "1"] + [str(x) for x in a]), "push,1", "er,1,0", "eq,1"]))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    env = {"FOCUS": focus}
    for r in ctx.validate("VecTrace", traces, env=env)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("VecTrace", ctx.record(exe, [t["script"]], "c", shards=1), env=env, shards=1, count=False, tag="c"))
    ops = [o for o in ARGS if not (o in SMALL_ONLY and not small) and not (o in STATIC_ONLY and not static)]
    if focus == "EXC": ops = ["push", "ins", "res_v", "as_range", "c_copy"]
    ctx.need_ops(ops)
    if focus == "EXC":
        ctx.notes["faults_thrown"] = sum(1 for t in traces for e in t["ev"] if e.get("ex") in ("boom", "alloc"))
        if ctx.notes["faults_thrown"] < 100 and not ctx.violations: raise CheckError("vacuous: hardly any fault was thrown")
    ctx.assumptions += ["moves of a whole small_vector, which are noexcept, do not meet elements which throw", "single-threaded use", "a move-only or trivial type is represented by the types driven"]
