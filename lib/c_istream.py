"""mem_istreambuf, rstream, redirect_rstream (C14)."""
from core import *

CFGS = ["mem_char", "mem_w", "mem_16", "mem_32", "str_char", "str_w"]
W = dict(new=1, reset=1, sgetc=2, sbumpc=3, snextc=3, sgetn=3, sgetnb=1, sunget=3, putback=3, avail=1, seekpos=3, seekoff=4, get=4, peek=3,
         read=4, unget=2, seekg=3, seekgd=3, tellg=3, sclear=5, wrap=1, redir=2, xread=4, xrsh=3, xend=2)


def rand_script(rng, cfg, length, big):
    names, ws = list(W), list(W.values())
    n = rng.choice([0, 1, 4, big])
    ops = ["new,%d,%d" % (n, rng.randint(0, 7))]
    for _ in range(length):
        o = rng.choices(names, ws)[0]
        if o in ("new", "reset"):
            n = rng.choice([0, 1, 2, rng.randint(0, big)]); a = [n, rng.randint(0, 7)]
        elif o in ("sgetn", "read", "xread"): a = [rng.choice([0, 1, 2, 3, n, n + 1, rng.randint(0, n + 3)])]
        elif o == "putback": a = [rng.randint(0, 7)]
        elif o in ("seekpos", "seekg", "redir"): a = [rng.choice([0, 1, n, n - 1, n + 1, -1 if o != "redir" else 0, rng.randint(0, n + 1)])]
        elif o in ("seekoff", "seekgd"): a = [rng.choice([0, 0, 1, -1, -2, n, -n, rng.randint(-n - 1, n + 1)]), rng.randint(0, 2)]
        else: a = []
        ops.append(",".join([o] + [str(x) for x in a]))
    return (cfg, ops)


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        fb = ex.submit(ctx.build, "is", ["istream_driver.cpp"], "17", (), 3, True, "-O0")
        edges = ctx.model_check("FileInMC", "FileInMC.cfg", env={"WRAPS": str(ctx.scale(1, 2))}, workers=4, min_states=100)
        exe = fb.result()
    init = [0, 0, False, False, []]
    scripts, cov = [], 0
    for cfg in ctx.scale(["mem_char"], ["mem_char", "mem_16"]):
        sc, n, left = edge_scripts(edges, cfg, 120, ctx.rng, init)
        if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
        cov += n; scripts += sc
    ctx.notes["model_transitions_replayed"] = cov
    for cfg in CFGS:
        for i in range(ctx.scale(40, 600)): scripts.append(rand_script(ctx.rng, cfg, ctx.rng.choice([15, 40, 80]), ctx.rng.choice([6, 12, 60])))
    for cfg in ["mem_char", "mem_16", "str_char"]:
        scripts.append((cfg, ["new,66000,1", "sgetn,65999", "tellg", "get", "get", "sclear", "seekoff,-65990,2", "get", "redir,65998", "xread,2", "xend", "get", "sgetnb", "tellg"]))
    scripts = dedup(scripts)
    traces = ctx.record(exe, scripts, "t")
    ctx.log("recorded %d traces, %d events" % (len(traces), sum(len(t["ev"]) for t in traces)))
    for r in ctx.validate("FileInTrace", traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate("FileInTrace", ctx.record(exe, [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
    ctx.need_ops(list(W))
    ctx.assumptions += ["the range read stays alive and unchanged while it is read", "the wrapped stream outlives its wrappers", "single-threaded use"]
