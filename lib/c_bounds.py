"""Reports of misuse under every configuration (C28)."""
from core import *

KINDS = ["sv", "sm", "span", "stride", "poly", "mv", "cmv", "map"]
BIT = dict(sv=1, sm=2, span=4, stride=8, poly=16, mv=32, cmv=32, map=64)


def configs():
    """(name, flags, sv_eh, sm_eh, ndebug, nb, nt, std): every handling of both vectors, with and without assertions and bounds checks"""
    out = []
    for nd in (0, 1):
        for b in (0, 1):
            for e in range(4):
                sm = (e + 1 + 2 * b) % 4
                nb = 0b010101 if b == 0 else 0b101010
                if b == 1 and e == 1: nb, sm = 0, 1      # everything left at its default
                nt = (e + b) % 2 == 0
                fl = [] if (b == 1 and e == 1) else ["-DSV_EH=%d" % e, "-DSM_EH=%d" % sm, "-DNB=%d" % nb]
                out.append(("d%d%d%d" % (nd, b, e), fl + (["-DNT"] if nt else []) + (["-DNDEBUG"] if nd else []), e, sm, nd, nb, nt, ["11", "14", "17", "20"][(e + b + nd) % 4]))
    return out


def reports(kind, sv, sm, nd, nb, nt):
    asserted = "ub" if nd else "abort"
    rng = lambda eh: ["ub", "oor", asserted, "oor" if nd else "abort"][eh]
    return [kind, (asserted if nt else "oor") if kind == "map" else rng(sv) if kind == "sv" else rng(sm) if kind == "sm" else "",
            "" if kind == "map" else ("ub" if nb & BIT[kind] else asserted)]


def run(ctx):
    cs = configs()
    with ThreadPoolExecutor(8) as ex:
        m = ex.submit(ctx.model_check, "BoundsMC", "BoundsMC.cfg", workers=4, min_states=250)
        exes = list(ex.map(lambda c: ctx.build(c[0], ["bounds_driver.cpp"], c[7], ["-faligned-new"] + c[1], None, c[0] in ("d000", "d003", "d111"), "-O1",
                                               "clang++" if c[0] in ("d010", "d103") else "g++"), cs))
        edges = m.result()
    by = {}
    for s, op, t in edges: by.setdefault(json.dumps(s[0]), []).append([s[1], op, t[1]])
    jobs, total, used = [], 0, set()
    for c, exe in zip(cs, exes):
        sc = []
        for kind in KINDS:
            key = json.dumps(reports(kind, *c[2:7]))
            used.add(key)
            first = [False] * 3 if kind == "map" else 0
            for rep in range(ctx.scale(1, 8)):
                x, n, left = edge_scripts(by[key], kind, 60, ctx.rng, first)
                if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
                total += n
                sc += x
        jobs.append((exe, dedup(sc), c[0]))
    if set(by) - used: raise CheckError("configurations of the model never run: %s" % sorted(set(by) - used))
    ctx.notes["model_transitions_replayed"] = total
    ctx.notes["configurations"] = len(cs)
    judge(ctx, "BoundsTrace", jobs)
    ctx.need_ops(["make", "assign", "grow", "ins", "resize", "era", "erar", "pop", "clear", "get", "set", "front", "back", "put", "del"])
    ctx.assumptions += ["calls which the configuration leaves undefined are not made", "a failed assertion is a SIGABRT, observed on a copy of the object"]
