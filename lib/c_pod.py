"""pod_vector (C06, C07)."""
from core import *

ARGS = dict(c_def=0, c_n=1, c_fill=1, c_range=1, c_il=1, c_copy=0, c_copya=0, c_move=0, a_copy=0, a_move=0, a_self=0, a_selfm=0, as_fill=1,
            as_range=1, as_il=1, as_self=2, push=0, push_self=1, emplb=0, emplb_self=1, emplb0=0, ins=1, ins_self=2, empl=1, empl_self=2,
            ins_fill=2, ins_fill_self=3, ins_range=2, ins_il=2, er=1, er_range=2, pop=0, clear=0, res=1, res_v=1, res_self=2, reserve=1,
            shrink=0, swap=1, set=1, eq=0, obs=0, rc_copy=1, rc_take=1)
COUNT_FIRST = {"c_n", "c_fill", "c_range", "c_il", "as_fill", "as_range", "as_il", "as_self", "res", "res_v", "res_self", "reserve"}
COUNT_SECOND = {"ins_fill", "ins_range", "ins_il", "ins_fill_self"}
W = dict(push=5, emplb=3, push_self=4, ins=4, ins_self=4, empl_self=3, er=4, er_range=3, shrink=4, reserve=3, rc_copy=3, rc_take=3, obs=2, eq=2, res=2, res_v=3, res_self=2)
CFGS = ["pod_u8_u32_R16", "pod_u8_u32_E16", "pod_u8_u32_R8", "pod_u16_s6_R16w", "pod_u16_s6_E8", "pod_u32_s12_R16", "pod_s12_s24_R8", "pod_s12_s24_E16",
        "pod_w32_w96_R16", "pod_w32_w96_E16", "pod_w64_w128_R8", "pod_w64_w128_E8", "pod_x16_x48_R8", "pod_x16_x48_E8", "pod_u32_s12_R16w",
        "pod_a128_a256_R8", "pod_u8_u32_N16", "pod_u8_u32_M16", "pod_x16_x48_N8"]
NARROW = {"pod_u8_u32_N16": 255, "pod_u8_u32_M16": 255, "pod_x16_x48_N8": 15}


def rand_script(rng, cfg, length, big):
    lim = NARROW.get(cfg) if rng.random() < 0.7 else None
    names = list(ARGS); ws = [W.get(n, 1) for n in names]
    ops = []
    for _ in range(length):
        n = rng.choices(names, ws)[0]
        x = "x_" if rng.random() < 0.12 else ""
        a = [rng.choice([1, 1, 1, 2, 3, 3, 4])]
        for i in range(ARGS[n]):
            if n in COUNT_FIRST and i == 0: a.append(rng.choice([0, 1, 2, 3, 5, rng.randint(0, big)] if not lim else [0, 3, lim // 4, lim // 2, rng.randint(0, lim), lim - rng.randint(0, 5), lim // 3 * 2]))
            elif n in COUNT_SECOND and i == 1: a.append(rng.choice([0, 1, 1, 2, 3, rng.randint(0, max(1, big // 2))]))
            else: a.append(rng.randint(0, 60))
        ops.append(",".join([x + n] + [str(x) for x in a]))
    return (cfg, ops)


def run(ctx, focus):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "pod", ["pod_driver.cpp"], "17", (), 5, True, "-O0")
        edges = ctx.model_check("PodVectorMC", "PodVectorMC.cfg", workers=4, min_states=100)
        exe = fb.result()
    scripts = []
    by = {}
    for s, op, t in edges: by.setdefault(s[0], []).append((s, op, t))
    cov = 0
    for exp, es in sorted(by.items()):
        seen, ded = set(), []
        for s, op, t in es:
            k = json.dumps([s, op])
            if k not in seen: seen.add(k); ded.append((s, op, t))
        init = [exp, [[0, 0, False], [0, 0, False]]]
        for cfg in (["pod_u32_s12_R16", "pod_x16_x48_R8"] if not exp else ["pod_s12_s24_E16", "pod_x16_x48_E8"]):
            sc, n, left = edge_scripts(ded, cfg, 60, ctx.rng, init)
            if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
            cov += n; scripts += sc
    ctx.notes["model_transitions_replayed"] = cov
    for cfg in CFGS:
        wide = cfg.startswith("pod_w") or cfg.startswith("pod_a")
        for i in range(ctx.scale(14, 200)):
            scripts.append(rand_script(ctx.rng, cfg, ctx.rng.choice([12, 30] if wide else [15, 40, 90]), 6 if wide else ctx.rng.choice([6, 12, 40])))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    env = {"FOCUS": focus}
    for r in ctx.validate("PodTrace", traces, env=env)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("PodTrace", ctx.record(exe, [t["script"]], "c", shards=1), env=env, shards=1, count=False, tag="c"))
    ctx.need_ops(list(ARGS))
    ctx.assumptions += ["elements are driven as tuples of units of gcd(sizeof T, sizeof U) bytes", "an allocator which can't give memory throws", "single-threaded use"]
