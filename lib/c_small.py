"""The smaller headers: qalgorithm (C21), ownership helpers (C22), time_t (C23), strutil (C24), throw_ex (C25), pmr_allocator (C26)."""
from core import *


# ---------------------------------------------------------------------------- C21
QC = ["vec", "deq", "list", "set", "small", "static", "pod", "flat", "bits", "het", "span", "str"]


def build_qalgo(ctx, name, std, flags=(), opt="-O1"):
    try: return ctx.build(name, ["qalgo_driver.cpp"], std, flags, None, True, opt, public=False), QC
    except CheckError as e:
        ctx.notes["vector_of_bool"] = "not usable with these functions: " + str(e)[-200:]
        return ctx.build(name + "p", ["qalgo_driver.cpp"], std, tuple(flags) + ("-DPLAIN",), None, True, opt), [c for c in QC if c != "bits"]


def run_qalgo(ctx):
    with ThreadPoolExecutor(6) as ex:
        a = ex.submit(build_qalgo, ctx, "q11", "11", ("-faligned-new",))
        b = ex.submit(build_qalgo, ctx, "q20", "20", (), "-O2")
        m = ex.submit(ctx.model_check, "QAlgoMC", "QAlgoMC.cfg", workers=3, min_states=1000)
        edges, (ea, qa), (eb, qb) = m.result(), a.result(), b.result()
    rng = ctx.rng
    # every call on every short sequence: one script per sequence, the calls that change it last
    calls = {}
    for s, op, t in edges:
        if op[0] != "set": calls.setdefault(json.dumps(s), []).append(op)
    def scripts(cfg, sub):
        out = []
        for s in sorted(calls)[::sub]:
            st = "set," + ",".join(map(str, json.loads(s))) if s != "[]" else "set"
            ops = []
            for op in calls[s]:
                if cfg == "bits": op = [op[0]] + sorted({min(1, x) for x in op[1:]})
                ops += ([st] if not ops or "erase" in ops[-1] else []) + [",".join(map(str, op))]
            out.append((cfg, ops))
        return out
    ctx.notes["calls_on_short_sequences"] = sum(len(v) for v in calls.values())
    jobs = [(ea, [x for c in qa for x in scripts(c, 1 if c in ("vec", "flat") else ctx.scale(3, 1))], "a"), (eb, [x for c in qb for x in scripts(c, 1 if c in ("het", "list") else ctx.scale(3, 1))], "b")]
    def rnd(cfg):
        K = 2 if cfg == "bits" else rng.choice([2, 3, 6])
        ops = []
        for _ in range(rng.randint(1, 8)):
            ops.append(",".join(["set"] + [str(rng.randrange(K)) for _ in range(rng.randint(0, 16 if cfg == "static" else 40))]))
            for _ in range(rng.randint(1, 6)):
                o = rng.choice(["qfind", "pfind", "erase1", "eraseall", "qfindif", "pfindif", "erase1if", "eraseallif", "all", "any", "none", "all0", "any0", "none0"])
                v = [] if o.endswith("0") else [rng.randrange(K)] if o in ("qfind", "pfind", "erase1", "eraseall") else [k for k in range(K) if rng.random() < rng.choice([0.1, 0.5, 0.9])]
                ops.append(",".join(map(str, [o] + v)))
        return (cfg, ops)
    def big(cfg): # counts which do not fit a byte
        ops = []
        for o in ("eraseall,1", "eraseallif,1", "qfind,0", "pfindif,0", "erase1,0", "all,1"):
            n = rng.randint(256, 300)
            ops += [",".join(["set"] + ["1"] * n + [str(rng.randrange(2)) for _ in range(rng.randint(0, 6))] + ["0"]), o]
        return (cfg, ops)
    for e, c, q in ((ea, "c", qa), (eb, "d", qb)): jobs.append((e, [rnd(cfg) for cfg in q for _ in range(ctx.scale(15, 400))] + [big(cfg) for cfg in q if cfg in ("vec", "list", "small", "pod", "het", "str", "bits") for _ in range(ctx.scale(1, 4))], c))
    judge(ctx, "QAlgoTrace", jobs)
    ctx.need_ops(["qfind", "pfind", "erase1", "eraseall", "qfindif", "pfindif", "erase1if", "eraseallif", "all", "any", "none", "all0", "any0", "none0"])
    ctx.assumptions += ["a value to erase is not itself an element of the container"]


# ---------------------------------------------------------------------------- C24
def run_str(ctx):
    with ThreadPoolExecutor(6) as ex:
        a = ex.submit(ctx.build, "s17", ["str_driver.cpp"], "17", ("-D_GLIBCXX_DEBUG",))
        b = ex.submit(ctx.build, "s20", ["str_driver.cpp"], "20", (), None, True, "-O2")
        m = ex.submit(ctx.model_check, "StrUtilMC", "StrUtilMC.cfg", workers=3, min_states=2000)
        m.result(); ea, eb = a.result(), b.result()
    rng = ctx.rng
    import itertools
    words = lambda n, cs: [w for k in range(n + 1) for w in itertools.product(cs, repeat=k)]
    def call(o, s, p, al=(-1, -1)): return ",".join(map(str, [o, len(s), al[0], al[1]] + list(s) + list(p)))
    OPS = ["sw", "ew", "rpa", "rsa"]
    ex = []
    for s in words(ctx.scale(6, 8), (97, 98)):
        ex.append([call(o, s, p) for p in words(3, (97, 98)) for o in OPS])
    ctx.notes["exhaustive_calls"] = sum(map(len, ex))
    views = [[call("view", [97 + i % 3 for i in range(n)], [], (o, k)) for o in range(n + 1) for k in range(n - o + 1)] for n in (0, 1, 2, 5, 8, 15, 16, 40)]
    def rnd():
        ops = []
        for _ in range(25):
            cs = rng.choice([(0, 1), (0, 255), (97, 128), range(256)])
            p = [rng.choice(list(cs)) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9, 17]))]
            s = list(p) * rng.randint(0, 6) + [rng.choice(list(cs)) for _ in range(rng.choice([0, 0, 1, 3, 20]))] + list(p) * rng.randint(0, 6)
            if rng.random() < 0.3 and p: s = list(p)[rng.randint(0, len(p)):] + s
            if rng.random() < 0.3 and p: s = s + list(p)[:rng.randint(0, len(p))]
            o = rng.choice(OPS)
            if rng.random() < 0.3: i = rng.randint(0, len(s)); ops.append(call(o, s, [], (i, rng.randint(0, min(len(s) - i, 4)))))
            else: ops.append(call(o, s, p))
        return ops
    jobs = []
    for e, c in ((ea, "a"), (eb, "b")):
        sc = [("str", o) for o in ex] + [("null", o) for o in ex[:20]] + [("str", o) for o in views] + [(rng.choice(["str", "null"]), rnd()) for _ in range(ctx.scale(150, 3000))]
        sc += [("str", [call(o, [97] * n, [97] * k) for o in OPS for k in (1, 2, 3, n - 1, n, n + 1)]) for n in (255, 256, 257, 1000, 3000)]
        jobs.append((e, sc, c))
    judge(ctx, "StrUtilTrace", jobs)
    ctx.need_ops(OPS + ["view"])


# ---------------------------------------------------------------------------- C23
TMIN, TMAX = -67768040609740800, 67768036191676799     # what fits std::tm
I64 = 2 ** 63


def days(y, m, d):                # scripts aim at dates; nothing is judged with this
    y -= m <= 2; era = y // 400; yoe = y - era * 400
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + (153 * ((m + 9) % 12) + 2) // 5 + d - 1 - 719468


def run_time(ctx):
    with ThreadPoolExecutor(8) as ex:
        a = ex.submit(ctx.build, "t11", ["time_driver.cpp"], "11", ("-faligned-new", "-fsanitize=undefined", "-fno-sanitize-recover=all"))
        b = ex.submit(ctx.build, "t20", ["time_driver.cpp"], "20", (), None, True, "-O2")
        t = ex.submit(ctx.build, "tt", ["time_driver.cpp"], "17", ("-fsanitize=thread",), None, False, "-O1")
        ms = [ex.submit(ctx.model_check, "CalendarMC", "CalendarMC.cfg", workers=5, min_states=146097), ex.submit(ctx.model_check, "BigIntMC", "BigIntMC.cfg", workers=2, min_states=2000)]
        ea, eb, et = a.result(), b.result(), t.result()
        for m in ms: m.result()
    rng = ctx.rng
    ZONES = ["utc", "east", "west", "ny"]
    anyt = lambda: rng.choice([rng.randint(TMIN, TMAX), rng.randint(-2 ** 33, 2 ** 33), rng.randint(-2 ** 40, 2 ** 40), rng.randint(0, 2 * 10 ** 9), days(rng.randint(-3000, 6000), rng.randint(1, 12), rng.randint(1, 31)) * 86400 + rng.randint(-2, 2)])
    clamp = lambda x: max(TMIN, min(TMAX, x))
    conv = lambda x, loc=True: ["set,%d,%d" % (x, rng.randrange(3)), "gm", "gmback"] + (["loc", "locback"] if loc else [])
    jobs = {"a": [], "b": [], "t": []}
    add = lambda z, ops: jobs[rng.choice("ab")].append((z, ops))
    # boundaries of days, months, years, centuries, cycles and machine integers
    ys = list(range(1896, 1905)) + list(range(1968, 1973)) + list(range(1996, 2006)) + [-1, 0, 1, 4, 100, 399, 400, 401, 1582, 1600, 1700, 1752, 1800, 1999, 2037, 2038, 2039, 2100, 2106, 2400, 9999, 10000, 32767, 65536, -400, -401, 10 ** 6, -10 ** 6, 2 * 10 ** 9, -2 * 10 ** 9]
    for y in ys:
        ops = []
        for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31)) + (((rng.randint(1, 12), rng.randint(1, 31)),) if ctx.tier == "quick" else tuple((i, 1) for i in range(2, 13))):
            for s in (-1, 0, 86399): ops += conv(days(y, m, d) * 86400 + s)
        add("utc", ops)
    for z in ("utc", "east", "west"):
        add(z, sum((conv(clamp(x + d), abs(x) < 6 * 10 ** 16) for x in (0, 2 ** 31, -2 ** 31, 2 ** 32, -2 ** 32, 2 ** 53, -2 ** 53, TMIN, TMAX, 10 ** 12) for d in (-1, 0, 1)), []))
    for z in ZONES:
        for _ in range(ctx.scale(20, 600)):
            x = [anyt() for _ in range(6)] if z != "ny" else [rng.randint(4 * 10 ** 7, 2 ** 33) for _ in range(6)]      # the C library has no daylight saving rules before 1970
            add(z, sum((conv(clamp(v), abs(v) < 6 * 10 ** 16) for v in x), []))
    # around every change of daylight saving time of some years, from both sides and over it
    for y in rng.sample(range(1971, 2400), ctx.scale(40, 300)):
        ops = []
        for m, dd, h in ((3, range(8, 15), 7), (11, range(1, 8), 6)):
            d = next(d for d in dd if (days(y, m, d) + 4) % 7 == 0)
            for s in (-7200, -3601, -3600, -1, 0, 1, 3599, 3600, 7200): ops += ["set,%d" % (days(y, m, d) * 86400 + h * 3600 + s), "loc", "locback"]
            for k in (-200, -1, 1, 100): ops += ["set,%d" % (days(y, m, d) * 86400 + rng.randint(12, 20) * 3600), "gm", "loc"]
        add("ny", ops)
    # out-of-range fields
    def field(big):
        w = rng.choice([0, 0, 1, 2]) if big else 0
        r = lambda lo, hi: rng.randint(lo, hi) if w == 0 else rng.randint(-10 ** 5, 10 ** 5) if w == 1 else rng.randint(-2 ** 31, 2 ** 31 - 1)
        return [r(-70, 130), r(-70, 130), r(-30, 50), r(-40, 70), r(-30, 30), rng.choice([rng.randint(70, 140), rng.randint(-3000, 3000), rng.randint(-10 ** 6, 10 ** 6)]), rng.randint(-9, 9), rng.randint(-9, 400), 0]
    for z in ZONES:
        for _ in range(ctx.scale(30, 800)):
            ops = []
            for _ in range(12):
                f = field(True); f[8] = rng.choice([0, 0, 1, -1]); ops += ["mk," + ",".join(map(str, f)), "gm"]
                f = field(z != "ny"); f[8] = rng.choice([0, 0, -1])
                if z == "ny": f = [rng.randrange(60), rng.randrange(60), rng.randrange(3, 24), rng.randrange(1, 32), rng.choice([0, 5, 6, 7, 8, 11]), rng.randint(71, 400), 0, 0, -1]      # no gap, nothing ambiguous
                ops += ["mkl," + ",".join(map(str, f)), "loc"]
            add(z, ops)
    for z in ("east", "west"):
        add(z, sum((["set,%d" % anyt() if False else "set,%d" % rng.randint(-2 ** 40, 2 ** 40), "locback,%d,%d" % (rng.randint(-1000, 1000), rng.randint(-10 ** 6, 10 ** 6))] for _ in range(ctx.scale(30, 300))), []))
    # arithmetic with units of all kinds, comparison and difference
    def ar():
        u = rng.randrange(17); small = u in (6, 8, 12, 11, 9, 10, 13)
        k = rng.choice([0, 1, -1, rng.randint(-100, 100), rng.randint(-30000, 30000) if small else rng.randint(-10 ** 9, 10 ** 9), (1 if small else 10 ** rng.choice([3, 6, 9])) * rng.randint(-5, 5) + rng.choice([-1, 0, 1]), rng.randint(-30000, 30000) if small else rng.randint(-10 ** 17, 10 ** 17) if u in (1, 2, 3, 14) else rng.randint(-10 ** 9, 10 ** 9)])
        if u == 13: k = abs(k)
        if u in (9, 10, 11) : k = max(-2 ** 20, min(2 ** 20, k))
        return "%s,%d,%d" % (rng.choice(["add", "sub", "add=", "sub="]), u, k)
    for _ in range(ctx.scale(60, 2000)):
        ops = []
        for _ in range(3):
            x = anyt(); ops += ["dflt"] if rng.random() < 0.1 else ["now"] if rng.random() < 0.1 else ["set,%d,%d" % (x, rng.randrange(3))]
            for _ in range(8): ops += [ar(), "cmp,%d" % (x + rng.choice([0, 0, 1, -1, rng.randint(-10 ** 6, 10 ** 6)]))]
        add("utc", ops)
    ex = [0, 1, -1, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 62 - 1, -2 ** 62]
    add("utc", sum((["set,%d,%d" % (x, rng.randrange(3))] + ["cmp,%d" % y for y in ex] for x in ex), []))
    for q in "ab": jobs[q].append(("utc", ["set,%d" % (I64 - 1), "cmp,%d" % (I64 - 1), "cmp,0", "sub=,0,%d" % (I64 - 1), "cmp,%d" % (I64 - 1), "set,%d" % -I64, "cmp,%d" % -I64, "cmp,-1", "add,0,%d" % (I64 - 1)]))
    # text
    LET = "YyCmdejHIMSpaAbhBuwUWGgVntDxFRTXrc"
    def tmf():
        import datetime
        d = datetime.date(rng.randint(1000, 9999), 1, 1) + datetime.timedelta(rng.randrange(365))
        return [rng.randrange(60), rng.randrange(60), rng.randrange(24), d.day, d.month - 1, d.year - 1900, (d.weekday() + 1) % 7, d.timetuple().tm_yday - 1, 0]
    fmt = lambda f, p: ",".join(map(str, ["fmt"] + f + p))
    import datetime
    edge = [[0, 0, 0, 1, 0, 100, 6, 0, 0], [59, 59, 11, 31, 11, 99, 5, 364, 0], [0, 0, 12, 29, 1, 100, 2, 59, 0], [60, 0, 23, 9, 8, -900, 0, 251, 0], [0, 59, 13, 10, 9, 8099, 0, 282, 0]]
    for f in edge + [tmf() for _ in range(ctx.scale(10, 100))]: add("utc", [fmt(f, [-ord(c)]) for c in LET] + [fmt(f, [])])
    for y in rng.sample(range(1001, 9998), ctx.scale(28, 400)):       # weeks at the turns of years
        ops = []
        for d in range(-4, 5):
            x = datetime.date(y, 1, 1) + datetime.timedelta(d); ops.append(fmt([0, 0, 0, x.day, x.month - 1, x.year - 1900, (x.weekday() + 1) % 7, x.timetuple().tm_yday - 1, 0], [-ord(c) for c in "GgVUWuj"]))
        add("utc", ops)
    lit = lambda n: [rng.choice([32, 48, 65, 122, 37, 9, 10]) for _ in range(n)]
    lens = sorted(set(range(0, 6)) | set(range(120, 136)) | set(range(250, 262)) | {384, 510, 511, 512, 513, 514, 600, 1023, 1024, 1025} | ({2047, 2048, 2049, 4096, 9000} if ctx.tier == "thorough" else set()))
    for n in lens:
        ops = [fmt(tmf(), lit(n))]
        if n > 4: ops += [fmt(tmf(), lit(n - 4) + [-89]), fmt(tmf(), [-89] + lit(n - 4)), fmt(tmf(), [-109] + lit(n - 4) + [-72])]
        add("utc", ops)
    for _ in range(ctx.scale(30, 800)):
        add("utc", [fmt(tmf(), [-ord(rng.choice(LET)) if rng.random() < 0.6 else lit(1)[0] for _ in range(rng.choice([1, 3, 10, 30, 60]))]) for _ in range(6)])
    # threads
    for z in ZONES:
        for _ in range(ctx.scale(2, 20)): jobs["t"].append((z, ["mt,%d,%d," % (rng.choice([2, 4]), ctx.scale(600, 3000)) + ",".join(str(rng.randint(4 * 10 ** 7 if z == "ny" else -2 ** 31, 2 ** 33)) for _ in range(rng.randint(2, 40)))]))
        jobs["b"].append((z, ["mt,4,%d," % ctx.scale(20000, 200000) + ",".join(str(rng.randint(4 * 10 ** 7 if z == "ny" else -2 ** 31, 2 ** 33)) for _ in range(40))]))
    judge(ctx, "TimeTrace", [(ea, jobs["a"], "a"), (eb, jobs["b"], "b"), (et, jobs["t"], "t")])
    ctx.need_ops(["set", "dflt", "now", "gm", "loc", "mk", "mkl", "add", "sub", "add=", "sub=", "cmp", "fmt", "mt"])
    ctx.assumptions += ["years which fit std::tm, and results which fit 64 bits", "texts of the C locale, of years of four digits; local time in zones given by POSIX rules"]


# ---------------------------------------------------------------------------- C25
KINDS = ["int", "bool", "chr", "str", "user", "dbl", "setw", "setfill", "hex", "dec", "oct", "boolalpha", "noboolalpha", "left", "right", "internal", "showpos", "noshowpos", "uppercase", "showbase"]


def run_throw(ctx):
    with ThreadPoolExecutor(8) as ex:
        bs = [ex.submit(ctx.build, "x11", ["throw_driver.cpp"], "11", ("-faligned-new", "-fsanitize=undefined", "-fno-sanitize-recover=all")),
              ex.submit(ctx.build, "x17", ["throw_driver.cpp"], "17", (), None, True, "-O2"),
              ex.submit(ctx.build, "x20", ["throw_driver.cpp"], "20", (), None, True, "-O1", "clang++")]
        m1 = ex.submit(ctx.model_check, "ThrowExMC", "ThrowExMC.cfg", workers=2, min_states=3000)
        m2 = ex.submit(ctx.model_check, "StreamMC", "StreamMC.cfg", workers=3, min_states=300)
        m1.result(); edges = m2.result(); exes = [b.result() for b in bs]
    rng = ctx.rng
    import itertools
    CT = ["x" + "".join(p) for n in range(4) for p in itertools.product("TCD", repeat=n)]
    def tok(k, *a):
        v = {"int": 0 if a and (a[0] < 0 or a[0] > 32767) else rng.randrange(4), "chr": rng.randrange(3), "str": rng.randrange(6), "dbl": rng.randrange(3)}.get(k, 0)
        return [KINDS.index(k), v, len(a)] + list(a)
    def use(toks, E=None, sh=None):
        E = rng.randrange(8) if E is None else E
        sh = rng.choice([0, 0, 1]) if sh is None else sh
        flat = []
        for t in toks:
            t = list(t)
            if t[0] == "str" and 0 in t[1:]:          # only strings which know their length can have a zero in them
                if E < 3: t = ["str"] + [c for c in t[1:] if c]
                flat += [3, rng.choice([1, 5]), len(t) - 1] + t[1:]
            elif t[0] == "chr" and t[1] == 0 and E < 3: flat += tok("chr", 64)
            else: flat += tok(*t)
        return ",".join(map(str, ["x", E, sh] + flat))
    jobs = [[], [], []]
    # every transition of the formatting state: each walk is the stream of one exception
    walks, n, left = edge_scripts([[s, ["/".join(map(str, op))], t] for s, op, t in edges], "x", maxlen=14, rng=rng)
    ctx.notes["model_edges"] = n; ctx.notes["model_edges_not_replayed"] = left
    isint = lambda s: s.lstrip("-").isdigit()
    for i, (c, ops) in enumerate(walks):
        ts = [[int(x) if isint(x) else x for x in o.split("/")] for o in ops]
        jobs[i % 3].append((rng.choice(CT), [use(ts)]))
    # all pairs of tokens in one expression
    one = [["int", -5], ["int", 77], ["bool", 1], ["chr", 120], ["str"], ["str", 97, 98, 99], ["user", 9], ["dbl", 5], ["setw", 4], ["hex"], ["boolalpha"], ["setfill", 48], ["left"]]
    for j in jobs:
        for a in one: j.append(("x", [use([a], 0, 2)] + [use([a, b], 0, 2) for b in one] + [use([a], E, 2) for E in range(8)]))
        for c in CT: j.append((c, [use([["str", 111, 107], ["int", 1]], E, sh) for E in range(8) for sh in (0, 1)] + [use([], E, sh) for E in range(8) for sh in (0, 1)]))
    # random streams
    def rnd():
        base, ts = 10, []
        for _ in range(rng.choice([0, 1, 2, 5, 10, 25])):
            k = rng.choice(KINDS + ["int", "str", "chr", "user", "bool"] * 3)
            if k in ("hex", "dec", "oct"): base = {"hex": 16, "dec": 10, "oct": 8}[k]
            if k in ("int", "user"):
                v = rng.choice([0, 1, rng.randint(-10 ** 4, 10 ** 4), rng.randint(-2 ** 31 + 1, 2 ** 31 - 1), -2 ** 31 + 1, 2 ** 31 - 1])
                ts.append([k, abs(v) if base == 8 or (k == "user" and base == 16) else v])
            elif k == "bool": ts.append([k, rng.randrange(2)])
            elif k == "chr": ts.append([k, rng.choice([0, 9, 10, 37, 65, 127])])
            elif k == "str": ts.append([k] + [rng.choice([32, 37, 97, 98, 200, 10, 0]) for _ in range(rng.choice([0, 1, 3, 7, 20, 200]))])
            elif k == "dbl": ts.append([k, rng.randint(-4000, 4000)])
            elif k == "setw": ts.append([k, rng.choice([0, 1, 2, 5, 12, 40])])
            elif k == "setfill": ts.append([k, rng.choice([32, 42, 48, 120])])
            else: ts.append([k])
        return ts
    for j in jobs:
        for _ in range(ctx.scale(120, 3000)): j.append((rng.choice(CT), [use(rnd()) for _ in range(6)]))
    judge(ctx, "ThrowTrace", [(e, j, "abc"[i]) for i, (e, j) in enumerate(zip(exes, jobs))])
    ctx.need_ops(["throw", "done"])
    ctx.assumptions += ["streaming a value does not itself throw", "a null character pointer is not streamed"]


# ---------------------------------------------------------------------------- C26
def run_pmr(ctx):
    with ThreadPoolExecutor(4) as ex:
        bs = [ex.submit(ctx.build, "p17", ["pmr_driver.cpp"], "17", ("-fsanitize=undefined", "-fno-sanitize-recover=all")), ex.submit(ctx.build, "p20", ["pmr_driver.cpp"], "20"),
              ex.submit(ctx.build, "p17c", ["pmr_driver.cpp"], "17", (), None, True, "-O2", "clang++")]
        m = ex.submit(ctx.model_check, "PmrAllocMC", "PmrAllocMC.cfg", workers=3, min_states=1000)
        edges = m.result(); exes = [b.result() for b in bs]
    rng = ctx.rng
    if ctx.tier == "quick":          # every request from every state; allocators are set up in fewer ways
        edges = [e for e in edges if e[1][0] not in ("c_copy", "c_conv", "c_std", "c_sel", "c_def") or len(e[0][2]) < 2]
    sc, n, left = edge_scripts(edges, "pmr", 120, rng, [[1, 1], 1, []])
    if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
    ctx.notes["model_transitions_replayed"] = n
    jobs = [[], [], []]
    for i, s in enumerate(sc): jobs[(0, 2, 0, 1)[i % 4]].append(s)
    def rnd():
        ops = []
        w = dict(zip(["def", "c_def", "c_res", "c_copy", "c_conv", "c_std", "c_sel", "eq", "bytes", "elems", "objs", "newo", "newv", "free"], [rng.choice([0.3, 1, 3]) for _ in range(14)]))
        hs = ["h_new", "h_fill", "h_drop", "h_clear", "h_copy", "h_copya", "h_move", "h_movea", "h_assign", "h_massign", "h_swap", "h_del"]
        for h, x in zip(hs, [1, 2, 0.7, 0.4, 1, 1, 1, 1, 1, 1, 1, 0.3]): w[h] = x * rng.choice([0, 0.5, 1, 2])
        fav = rng.randrange(8)
        for _ in range(rng.choice([10, 30, 60])):
            o = rng.choices(list(w), list(w.values()))[0]
            k, j, q = rng.randrange(3), rng.randrange(3), rng.randrange(3)
            fz = rng.choice([0, 0, 0, 0, 1, -1])
            cnt = rng.choice([0, 1, 1, 2, 3, 17, rng.randint(0, 300), rng.randint(0, 5000), 2 ** 20 - 1, 2 ** 36, 2 ** 40 + 3, -1, -2, -3, -rng.randint(1, 10 ** 6)])
            if o == "bytes": a = [k, abs(cnt), rng.choice([0, 0, 1, 2, 4, 8, 16, 32, 64, 128]), fz]
            elif o in ("elems", "objs"): a = [k, rng.randint(1, 8), cnt, fz, rng.randrange(2)]
            elif o == "newo": a = [k, rng.randint(6, 8), rng.randint(-5, 99), fz, rng.randrange(2)]
            elif o == "free": a = [rng.randrange(9), rng.randrange(3)]
            elif o == "h_new": a = [k, j, fav if rng.random() < 0.7 else rng.randrange(8)]
            elif o == "h_fill": a = [k, rng.choice([1, 2, 5, 20])]
            elif o in ("c_conv",): a = [k, j, rng.randrange(8)]
            elif o in ("c_res", "def"): a = [k, rng.randrange(4)]
            else: a = [k, j, q]
            ops.append(",".join(map(str, [o] + a)))
        return ("pmr", ops)
    for j in jobs:
        for _ in range(ctx.scale(250, 6000)): j.append(rnd())
        for kind in range(8):         # every call of containers on every kind, between every pair of resources
            for ra in range(4):
                for rb in range(4):
                    s = ["c_res,0,%d" % ra, "c_res,1,%d" % rb, "def,0,%d" % rng.randrange(4)]
                    for f in ("h_copy,1,0", "h_copya,1,0,1", "h_move,1,0", "h_movea,1,0,1"): s += ["h_new,0,0,%d" % kind, "h_fill,0,5", f, "h_fill,1,3", "h_fill,0,1"]
                    for f in ("h_assign,1,0", "h_massign,1,0", "h_swap,1,0"): s += ["h_new,0,0,%d" % kind, "h_new,1,1,%d" % kind, "h_fill,0,5", "h_fill,1,%d" % rng.randrange(4), f, "h_fill,1,3", "h_fill,0,2", "h_clear,0", "h_drop,1"]
                    j.append(("pmr", s))
    judge(ctx, "PmrTrace", [(e, j, "abc"[i]) for i, (e, j) in enumerate(zip(exes, jobs))])
    ctx.need_ops(["def", "c_def", "c_res", "c_copy", "c_conv", "c_std", "c_sel", "eq", "bytes", "elems", "objs", "newo", "newv", "free", "h_new", "h_fill", "h_copy", "h_copya", "h_move", "h_movea", "h_assign", "h_massign", "h_swap", "end"])
    ctx.assumptions += ["resources which compare equal may return each other's memory (containers rely on it)", "destructors do not throw"]


# ---------------------------------------------------------------------------- C22
def run_own(ctx):
    fl = ("-faligned-new",)
    with ThreadPoolExecutor(8) as ex:
        b = {}
        for n, src in (("f", "fn_driver.cpp"), ("o", "ptr_driver.cpp")):
            b[n + "a"] = ex.submit(ctx.build, n + "11", [src], "11", fl)
            b[n + "b"] = ex.submit(ctx.build, n + "17", [src], "17", ("-fsanitize=undefined", "-fno-sanitize-recover=all"), None, True, "-O2")
        b["fc"] = ex.submit(ctx.build, "f14c", ["fn_driver.cpp"], "14", fl, None, True, "-O1", "clang++")
        ms = [ex.submit(ctx.model_check, m, c + ".cfg", workers=2, min_states=200) for m, c in (("GuardMC", "GuardMC"), ("UFunMC", "UFunMC"), ("UFunMC", "UFunMC3"), ("OwnershipMC", "OwnershipMC"), ("OwnershipMC", "OwnershipMC3"))]
        g, u, _, o, _ = [m.result() for m in ms]
        b = {k: v.result() for k, v in b.items()}
    rng = ctx.rng
    def walks(edges, cfg, init):
        seen, ded = set(), []
        for s, op, t in edges:
            k = json.dumps([s, op])
            if k not in seen: seen.add(k); ded.append((s, op, t))
        sc, n, left = edge_scripts(ded, cfg, 100, rng, init)
        if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
        ctx.notes["model_transitions_replayed_" + cfg] = n
        return sc
    def ops(n, f): return [",".join(map(str, f())) for _ in range(n)]
    R = rng.randrange
    # guards
    sent = {q: [] for q in "abc"}
    for s in walks(g, "sentry", [[[-1, 0, False]] * 3, 0]): sent[rng.choice("ac")].append(s)
    import itertools
    for q in "abc":
        for n in range(0, ctx.scale(4, 5)): sent[q] += [("sentry", [",".join(map(str, ("nest", how) + ks)) for how in range(3)]) for ks in itertools.product(range(8), repeat=n) if n < 3 or rng.random() < (0.2 if q != "b" else 0.4)]
        for _ in range(ctx.scale(60, 2000)):
            def f():
                x = rng.random()
                return ("new", R(3), R(9), R(50)) if x < 0.35 else ("move", R(3), R(3)) if x < 0.6 else ("drop", R(3)) if x < 0.8 else ("poke", R(90)) if x < 0.9 else tuple(["nest", R(3)] + [R(8) for _ in range(R(7))])
            sent[q].append(("sentry", ops(rng.choice([5, 15, 50]), f)))
    # unique functions
    ufn = {q: [] for q in "abc"}
    for s in walks(u, "ufn", [[[-1, 0, 0]] * 3, 0]): ufn[rng.choice("abc")].append(s)
    for q in "abc":
        ufn[q] += [("ufn", ["%s,0,%d,3" % (a, k), "call,0,2", "call,0,-1", "%s,1,%d,5" % (a2, k2), "call,1,1,1", mv, "call,0,3", "call,1,4", "call,2,5"]) for k in range(17) for k2 in range(17) if q == "a" or (k + k2) % 3 == 0
                   for a, a2 in (("c", "a"),) for mv in ("c_move,1,0", "a_move,0,1", "swap,0,1", "a_move,1,1", "c_move,2,1")]
        for _ in range(ctx.scale(60, 2500)):
            ws = [rng.choice([0.3, 1, 2]) for _ in range(10)]
            def f():
                o = rng.choices(["c", "a", "c_def", "c_null", "a_null", "c_move", "a_move", "swap", "call", "sig"], [2 * ws[0], 3 * ws[1], 0.2, 0.2, 0.5 * ws[2], ws[3], 2 * ws[4], ws[5], 5 * ws[6], 0.3])[0]
                return (o, R(3), R(17), R(50)) if o in "ca" else (o, R(3), rng.choice([0, 1, 7, 50, -1]), R(2)) if o == "call" else (o, R(3), R(3) if o != "sig" else R(1000))
            ufn[q].append(("ufn", ops(rng.choice([10, 30, 80]), f)))
    # pointers
    own = {q: [] for q in "ab"}
    for s in walks(o, "ptr", [[[0, 0, 0]] * 2, [0, 0, 0]]): own[rng.choice("ab")].append(s)
    for q in "ab":
        for _ in range(ctx.scale(150, 5000)):
            W = dict(mks=1, mku=1, own=2, alias=3, raw=0.6, copy=1, move=1, reset=1, sft=1.5, sf=2, wft=0.7, wf=1, lock=1, wreset=0.3, none=0.1, misc=0.1)
            W = {k: v * rng.choice([0.3, 1, 2]) for k, v in W.items()}
            def f():
                n = rng.choices(list(W), list(W.values()))[0]
                if n in ("mks", "mku"): return (n, R(3), R(4), R(90), R(5) == 0 and 1 or 0)
                if n == "own": return (n, R(3), R(7), R(90))
                if n in ("alias", "sf", "wf"): return (n, R(3), R(3), rng.choice([0, 2, 2, 3] + ([1] if n != "alias" else [])), R(3))
                if n in ("sft", "wft"): return (n, R(3), R(3), R(2))
                return (n, R(3), R(3), rng.choice([0, 3]) if n == "raw" else R(200))
            own[q].append(("ptr", ops(rng.choice([10, 30, 80]), f)))
    judge(ctx, "GuardTrace", [(b["f" + q], sent[q], "g" + q) for q in "abc"])
    if not ctx.violations: judge(ctx, "UFunTrace", [(b["f" + q], ufn[q], "u" + q) for q in "abc"])
    if not ctx.violations: judge(ctx, "PtrTrace", [(b["o" + q], own[q], "o" + q) for q in "ab"])
    ctx.need_ops(["new", "move", "drop", "poke", "nest", "c", "a", "c_def", "c_null", "a_null", "c_move", "a_move", "swap", "call", "sig", "mks", "mku", "own", "alias", "raw", "copy", "reset", "sft", "sf", "wft", "wf", "lock", "wreset", "none", "misc"])
    ctx.assumptions += ["moving a callable does not throw", "guard functions do not throw", "a null function pointer of a type other than the function's own is not given to a unique function"]
