"""dynamic_bitset (C10)."""
from core import *

CFGS = {"v8": 8, "v16": 16, "v32": 32, "v64": 64, "small32": 32, "static16": 16, "pod8": 8, "pod64": 64, "few16": 16, "deny32": 32, "deny8": 8}
ONE = ["set", "reset", "flip", "setb", "rset", "rreset", "rflip", "rsetb", "rasg", "iasg", "test"]
W = dict(c_def=0.3, c_n=2, c_copy=1, c_move=0.7, a_copy=1.2, a_move=0.7, a_self=0.3, a_selfm=0.2, resize=5, reserve=1, push=4, assign=1.5, append=3, append_self=1,
         copy=8, copy_self=4, poke=5, obs=2, fill=1, **{n: 1.2 for n in ONE})


def exhaustive(cfg, w, rng, sizes):
    """resize, append and copy for every combination of positions around the word boundaries, with garbage beyond the size"""
    out = []
    near = sorted({0, 1, w // 2, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 2 * w + w // 2} if sizes is None else set(sizes))
    for n in near:
        ops = []
        for k in near:
            ops += ["c_n,1,%d,%d" % (n, 2 + 5 * rng.randint(0, 50)), "poke,1,%d" % rng.randint(0, 99), "resize,1,%d" % k, "obs,1"]
            ops += ["c_n,2,%d,%d" % (k, 2 + 5 * rng.randint(0, 50)), "poke,1,1", "poke,2,1", "append,1", "obs,1", "push,1,%d" % rng.randint(0, 1)]
        out.append((cfg, ops))
    return out


def copies(cfg, w, rng, count, maxn):
    out = []
    for _ in range(count):
        n, m = rng.randint(w, maxn), rng.randint(1, maxn)
        ops = []
        for _ in range(30):
            ops += ["c_n,1,%d,%d" % (n, rng.randint(0, 99)), "c_n,2,%d,%d" % (m, rng.randint(0, 99)), "poke,1,1", "poke,2,1"]
            for _ in range(3):
                ops.append("copy,1,%d,%d,%d" % (rng.randint(0, 300), rng.randint(0, min(n, m)), rng.randint(0, 300)))
        out.append((cfg, ops))
    return out


def rand_script(rng, cfg, length):
    w = CFGS[cfg]
    names, ws = list(W), list(W.values())
    cap = 1000 if cfg == "static16" else 200
    size = [0, 0]
    ops = []
    def anysize(): return rng.choice([0, 1, w - 1, w, w + 1, 2 * w, rng.randint(0, 3 * w), rng.randint(0, 3 * w), rng.randint(0, 150)])
    while len(ops) < length:
        n = rng.choices(names, ws)[0]
        o = rng.choice([1, 1, 2]); x, y = o - 1, 2 - o
        a = [o]
        if n == "c_def": size[x] = 0
        elif n == "c_n": k = anysize(); a += [k, rng.randint(0, 400)]; size[x] = k
        elif n in ("c_copy", "a_copy"): size[x] = size[y]
        elif n in ("c_move", "a_move"): size[x], size[y] = size[y], 0
        elif n == "resize": k = anysize(); a.append(k); size[x] = k
        elif n == "reserve": a.append(anysize())
        elif n == "push": a.append(rng.randint(0, 1)); size[x] += 1
        elif n == "assign": k = rng.randint(0, 4); a += [k, rng.randint(0, 400)]; size[x] = k * w
        elif n == "append":
            if size[0] + size[1] > 240: continue
            size[x] += size[y]
        elif n == "append_self":
            if size[x] > 110: continue
            size[x] *= 2
        elif n in ("copy", "copy_self"): a += [rng.randint(0, 300), rng.choice([rng.randint(0, 200), rng.randint(0, w), 999]), rng.randint(0, 300)]
        elif n == "poke": a.append(rng.randint(0, 400))
        elif n == "fill": a.append(rng.randint(0, 1))
        elif n in ONE: a += [rng.randint(0, 400), rng.randint(0, 1)]
        if max(size) > cap: size = [300, 300]
        if cfg.startswith("deny") and rng.random() < 0.3: n = "x_" + n
        ops.append(",".join([n] + [str(v) for v in a]))
        if n == "a_selfm": ops.append("c_n,%d,%d,%d" % (o, anysize(), 7)); size[x] = int(ops[-1].split(",")[2])
    return (cfg, ops)


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "bits", ["bitset_driver.cpp"], "17", (), 5, True, "-O0")
        ctx.model_check("BitsMC", "BitsMC.cfg", workers=4, min_states=100000)
        exe = fb.result()
    rng = ctx.rng
    scripts = []
    for cfg, w in CFGS.items():
        scripts += exhaustive(cfg, w, rng, None)
        scripts += copies(cfg, w, rng, ctx.scale(4, 80), min(3 * w + 5, 180))
        for _ in range(ctx.scale(20, 400)): scripts.append(rand_script(rng, cfg, rng.choice([15, 40, 80])))
    # every copy of a short range between short bitsets of one-byte words
    for n in ctx.scale([11, 17, 24], range(1, 34)):
        for m in ctx.scale([9, 19], range(1, 34)):
            ops = []
            for f in range(0, n, ctx.scale(3, 1)):
                for s in range(0, m, ctx.scale(2, 1)):
                    for ln in range(1, min(n - f, m - s) + 1, ctx.scale(3, 1)):
                        ops += ["c_n,1,%d,%d" % (n, rng.randint(0, 99)), "c_n,2,%d,%d" % (m, 2 + 5 * rng.randint(0, 99)), "copy,1,%d,%d,%d" % (f, ln, s)]
            for i in range(0, len(ops), 90): scripts.append((rng.choice(["v8", "pod8"]), ops[i:i + 90]))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("BitsTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("BitsTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops([k for k in W])
    ctx.assumptions += ["positions and ranges are within the size", "a range copied onto an overlapping later part of the same bitset is unspecified within that range", "single-threaded use"]
