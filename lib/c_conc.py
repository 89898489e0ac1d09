"""atomic_shared_ptr_storage, strong_try_rec_mutex, data_mutex, atomic_relaxed_counter (C16, C17, C18, C20)."""
from core import *


def try_build(ctx, *a, **k):
    """The fiber scheduler replaces types of the standard library: code it cannot stand in for is judged by the real threads alone."""
    try: return ctx.build(*a, public=False, **k)
    except CheckError as e:
        ctx.log("note: the header does not compile under the fiber scheduler")
        ctx.notes["fiber_scheduler"] = "unavailable: " + str(e)[-300:]
        return None


def seq_scripts(ctx, edges, cfg, init, maxlen, head):
    seen, ded = set(), []
    for s, op, t in edges:
        k = json.dumps([s, op])
        if k not in seen: seen.add(k); ded.append((s, op, t))
    sc, n, left = edge_scripts(ded, cfg, maxlen, ctx.rng, init)
    if left: raise CheckError("%d transitions of the model not covered by scripts" % left)
    out = []
    for c, ops in sc:       # model operations are [name, thread, ...]
        out.append((c, head + ["seq"] + ops))
    return out, n


# ---------------------------------------------------------------------------- C16
def store_program(rng, cfg, nt, nops, go):
    ops = []; alias = rng.random() < 0.5
    if rng.random() < 0.85: ops.append("init,%d" % rng.randint(1, 4))
    for t in range(nt):
        for r in range(2):
            x = rng.random()
            if x < 0.5: ops.append("sload,%d,%d" % (t, r))
            elif x < 0.7: ops.append("snew,%d,%d,0,%d" % (t, r, rng.randint(0, 3)))
            elif x < 0.85 and alias: ops.append("salias,%d,%d,%d,%d" % (t, r, rng.randint(0, 1), rng.randint(0, 1)))
    ops.append(go)
    for t in range(nt):
        for _ in range(nops if nt < 3 else rng.randint(1, nops)):
            o = rng.choices(["load", "store", "mstore", "nstore", "xchg", "nxchg", "cas", "ncas", "new", "drop", "dup", "read", "alias"], [5, 3, 1, 3, 3, 3, 4, 5, 1, 2, 0.5, 2, 1.5 if alias else 0])[0]
            ops.append("%s,%d,%d,%d,%d" % (o, t, rng.randint(0, 1), rng.randint(0, 2), rng.choice([0, 0, 1, 1, 2, 3])))
    return (cfg, ops)


def alias_program(rng, cfg, nt, nops, go): # references to the same object which own different ones
    ops = ["init,%d" % rng.randint(1, 2)]
    for t in range(nt):
        for r in range(2): ops += ["snew,%d,%d,0,0" % (t, r), "salias,%d,%d,%d,%d" % (t, r, r, rng.random() < 0.2)]
    ops.append(go)
    for _ in range(nops):
        o = rng.choices(["load", "store", "xchg", "nxchg", "cas", "alias", "dup"], [3, 5, 3, 0.5, 4, 1, 1])[0]
        ops.append("%s,%d,%d,%d,%d" % (o, rng.randrange(nt), rng.randint(0, 1), rng.randint(0, 2), rng.choice([0, 0, 0, 1, 2])))
    return (cfg, ops)


def run_store(ctx):
    with ThreadPoolExecutor(6) as ex:
        f17 = ex.submit(try_build, ctx, "sf", ["store_driver.cpp"], "17", (), None, False, "-O1")
        r14 = ex.submit(ctx.build, "sr14", ["store_driver.cpp"], "14", ("-DREAL", "-faligned-new", "-fsanitize=thread"), None, False, "-O1")
        r20 = ex.submit(ctx.build, "sr20", ["store_driver.cpp"], "20", ("-DREAL", "-fsanitize=thread"), None, False, "-O1")
        m1 = ex.submit(ctx.model_check, "SharedStoreMC", "SharedStoreMC.cfg", workers=2, min_states=100)
        m2 = ex.submit(ctx.model_check, "SpinStore", ctx.scale("SpinStore.cfg", "SpinStore3.cfg"), workers=3, min_states=1000, timeout=3000)
        edges, _, fib, e14, e20 = m1.result(), m2.result(), f17.result(), r14.result(), r20.result()
    init = [0] * 7
    sq, n = seq_scripts(ctx, edges, "x", init, 60, [])
    rng = ctx.rng
    ctx.notes["model_transitions_replayed"] = n
    jobs = [(e14, [("seq", o) for _, o in sq], "a"), (e20, [("seq", o) for _, o in sq[::ctx.scale(3, 1)]], "b")]
    st = ["stress,%d,%d,%d" % (t, k, rng.randint(1, 10 ** 6)) for t, k in ctx.scale([(2, 3000), (4, 2000), (8, 800)], [(2, 20000), (4, 20000), (8, 10000)] * 4)]
    jobs += [(e14, [("stress", [s]) for s in st], "c"), (e20, [("stress", [s]) for s in st], "d")]
    for e, c in ((e14, "e"), (e20, "f")):   # longer histories one after another, with destructors that use the storage
        jobs.append((e, [store_program(rng, "seq", 3, 8, "seq") for _ in range(ctx.scale(60, 500))] + [alias_program(rng, "seq", 3, 12, "seq") for _ in range(ctx.scale(40, 300))], c))
    if fib:
        sc = [("fib17", o) for _, o in sq[::ctx.scale(4, 1)]]
        for i in range(ctx.scale(60, 400)):
            nt = rng.choice([2, 2, 2, 3]); k = rng.randint(1, 3) if nt == 2 else rng.randint(1, 2)
            sc.append(store_program(rng, "fib17", nt, k, "go,%d,%d,%d,%d,0" % (rng.choice([1, 2, 2, 3]), ctx.scale(3000, 20000), ctx.scale(1000, 10000), rng.randint(1, 10 ** 6))))
        for i in range(ctx.scale(12, 80)):
            sc.append(alias_program(rng, "fib17", 2, rng.randint(3, 5), "go,%d,%d,%d,%d,0" % (rng.choice([1, 2]), ctx.scale(2000, 20000), ctx.scale(800, 10000), rng.randint(1, 10 ** 6))))
        for i in range(ctx.scale(24, 120)):  # every access, for the order it takes place in
            sc.append(store_program(rng, "fib17", rng.choice([2, 3]), 2, "go,1,%d,%d,%d,1" % (ctx.scale(4, 20), ctx.scale(8, 60), rng.randint(1, 10 ** 6))))
        jobs.append((fib, sc, "g"))
    judge(ctx, "SharedStoreTrace", jobs)
    ctx.need_ops(["inv", "ret", "dtor", "End", "stress"] + (["m"] if fib else []))
    ctx.assumptions += ["sequentially consistent interleavings for results; data-race freedom and publication judged by happens-before on those and by the thread sanitizer",
                        "reference counting is that of the standard: increments relaxed, decrements acquire-release"]


# ---------------------------------------------------------------------------- C17
def mutex_program(rng, cfg, nt, nops, go):
    ops = [go]
    body = []
    for t in range(nt):
        for _ in range(rng.randint(1, nops)):
            o = rng.choices(["try", "unlock", "use", "wrap", "many", "less"], [6, 4, 4, 2, 0.6, 0.6])[0]
            body.append("%s,%d,%d" % (o, t, rng.randint(1, 3)))
    if go == "seq": rng.shuffle(body)
    return (cfg, ops + body)


def run_mutex(ctx):
    with ThreadPoolExecutor(6) as ex:
        ff = ex.submit(try_build, ctx, "mf", ["mutex_driver.cpp"], "17", (), None, False, "-O1")
        r11 = ex.submit(ctx.build, "mr11", ["mutex_driver.cpp"], "11", ("-DREAL", "-faligned-new", "-fsanitize=thread"), None, False, "-O1")
        r20 = ex.submit(ctx.build, "mr20", ["mutex_driver.cpp"], "20", ("-DREAL", "-DNDEBUG", "-fsanitize=thread"), None, False, "-O2")
        m1 = ex.submit(ctx.model_check, "TryMutexMC", "TryMutexMC.cfg", workers=2, min_states=9)
        m2 = ex.submit(ctx.model_check, "TryMutexMC", "TryMutexSteps.cfg", workers=3, min_states=1000)
        edges, _, fib, e11, e20 = m1.result(), m2.result(), ff.result(), r11.result(), r20.result()
    sq, n = seq_scripts(ctx, edges, "seq", [0, 0], 60, [])
    ctx.notes["model_transitions_replayed"] = n
    rng = ctx.rng
    deep = [("seq", ["seq", "try,0", "many,0,%d" % k, "try,1", "less,0,%d" % k, "try,1", "use,0", "unlock,0", "try,1", "use,1", "unlock,1", "try,0", "use,0", "try,1"]) for k in (126, 127, 128, 255, 256, 300, 32767, 32768, 65535, 65536, 70000)]
    jobs = [(e11, sq + deep, "a"), (e20, sq + deep, "b")]
    st = ["stress,%d,%d,%d" % (t, k, rng.randint(1, 10 ** 6)) for t, k in ctx.scale([(2, 3000), (4, 3000), (8, 1000)], [(2, 20000), (4, 20000), (8, 10000)] * 4)]
    jobs += [(e11, [("stress", [s]) for s in st], "c"), (e20, [("stress", [s]) for s in st], "d")]
    for e, c in ((e11, "e"), (e20, "f")): jobs.append((e, [mutex_program(rng, "seq", rng.randint(2, 4), 12, "seq") for _ in range(ctx.scale(60, 500))], c))
    if fib:
        sc = [("fib", o) for _, o in sq]
        for i in range(ctx.scale(80, 500)):
            nt = rng.choice([2, 2, 3]); sc.append(mutex_program(rng, "fib", nt, 4 if nt == 2 else 3, "go,%d,%d,%d,%d,0" % (rng.choice([1, 2, 2, 3]), ctx.scale(3000, 20000), ctx.scale(1000, 10000), rng.randint(1, 10 ** 6))))
        for i in range(ctx.scale(40, 200)):
            sc.append(mutex_program(rng, "fib", rng.choice([2, 3]), 4, "go,1,%d,%d,%d,1" % (ctx.scale(6, 20), ctx.scale(10, 60), rng.randint(1, 10 ** 6))))
        jobs.append((fib, sc, "g"))
    judge(ctx, "TryMutexTrace", jobs)
    ctx.need_ops(["inv", "ret", "use", "many", "less", "stress"] + (["m"] if fib else []))
    ctx.assumptions += ["sequentially consistent interleavings for results; publication judged by happens-before on those and by the thread sanitizer"]


# ---------------------------------------------------------------------------- C18
def dmutex_program(rng, nt, nops, go):
    body = []
    for t in range(nt):
        for _ in range(rng.randint(1, nops)):
            o = rng.choices(["acq", "end", "mv", "put", "get", "scope", "temp"], [6, 4, 1.5, 3, 3, 0.7, 0.7])[0]
            s = rng.randint(0, 2)
            body.append("acq,%d,%d,%d,%d" % (t, s, rng.randint(0, 5), rng.random() < 0.15) if o == "acq" else "%s,%d,%d,%d" % (o, t, s, rng.randint(0, 2) if o == "mv" else rng.randint(0, 5)))
    if go == "seq": rng.shuffle(body)
    return ("dm", ["make,%d,%d" % (rng.randint(0, 2), rng.randint(1, 50)), go] + body)


def run_dmutex(ctx):
    with ThreadPoolExecutor(6) as ex:
        ff = ex.submit(ctx.build, "df", ["dmutex_driver.cpp"], "17", (), None, False, "-O1")
        r11 = ex.submit(ctx.build, "dr11", ["dmutex_driver.cpp"], "11", ("-DREAL", "-faligned-new", "-fsanitize=undefined", "-fno-sanitize-recover=all"), None, True, "-O1")
        r20 = ex.submit(ctx.build, "dr20", ["dmutex_driver.cpp"], "20", ("-DREAL",), None, True, "-O2")
        m1 = ex.submit(ctx.model_check, "DataMutexMC", "DataMutexMC.cfg", workers=2, min_states=500)
        edges, fib, e11, e20 = m1.result(), ff.result(), r11.result(), r20.result()
    sq, n = seq_scripts(ctx, edges, "dm", [0, [0, 0], [[], [], []]], 80, ["make,1,7"])
    ctx.notes["model_transitions_replayed"] = n
    rng = ctx.rng
    jobs = [(e11, sq, "a"), (e20, sq, "b")]
    for e, c in ((e11, "e"), (e20, "f")): jobs.append((e, [dmutex_program(rng, rng.randint(1, 4), 20, "seq") for _ in range(ctx.scale(150, 1500))], c))
    sc = sq[::ctx.scale(4, 1)]
    for i in range(ctx.scale(100, 600)):
        nt = rng.choice([2, 2, 3]); sc.append(dmutex_program(rng, nt, 5 if nt == 2 else 4, "go,%d,%d,%d,%d,0" % (rng.choice([1, 2, 2]), ctx.scale(400, 4000), ctx.scale(300, 3000), rng.randint(1, 10 ** 6))))
    for i in range(ctx.scale(60, 300)):
        sc.append(dmutex_program(rng, rng.choice([2, 3]), 5, "go,1,%d,%d,%d,1" % (ctx.scale(10, 40), ctx.scale(15, 100), rng.randint(1, 10 ** 6))))
    jobs.append((fib, sc, "g"))
    judge(ctx, "DataMutexTrace", jobs)
    ctx.need_ops(["made", "rights", "inv", "ret", "mx", "get", "put", "has", "m", "End"])
    ctx.assumptions += ["sequentially consistent interleavings; publication judged by happens-before, the mutex being a correct shared mutex"]


# ---------------------------------------------------------------------------- C20
CT = {"i8": 1, "u8": 1, "ch": 1, "i16": 2, "u16": 2, "c16": 2, "c32": 4, "i32": 4, "u32": 4, "wc": 4, "i64": 8, "u64": 8, "ll": 8, "ull": 8}


def counter_value(rng, w):
    b = 8 * w
    v = rng.choice([0, 1, 2, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << (b // 2)) - 1, rng.getrandbits(b), rng.getrandbits(b)])
    return "%d,%d" % (v & 0xffffffff, v >> 32)


def counter_program(rng, ty, nt, nops, go):
    w = CT[ty]; ops = ["make,%d,%s" % (k, counter_value(rng, w)) for k in (0, 1) if rng.random() < 0.8]; body = []
    for t in range(nt):
        for _ in range(rng.randint(1, nops)):
            o = rng.choices(["inc", "pinc", "dec", "pdec", "add", "sub", "load", "conv", "store", "set", "assign", "copy"], [4, 4, 3, 3, 3, 3, 2, 1, 1, 1, 2, 1])[0]
            body.append("%s,%d,%d,%s" % (o, t, rng.random() < (0.2 if go != "seq" else 0.4), counter_value(rng, w)))
    if go == "seq": rng.shuffle(body)
    return (ty, ops + [go] + body)


def run_counter(ctx):
    with ThreadPoolExecutor(6) as ex:
        ff = ex.submit(try_build, ctx, "cf", ["counter_driver.cpp"], "17", (), None, False, "-O1")
        r11 = ex.submit(ctx.build, "cr11", ["counter_driver.cpp"], "11", ("-DREAL", "-faligned-new", "-fsanitize=thread"), None, False, "-O1")
        r20 = ex.submit(ctx.build, "cr20", ["counter_driver.cpp"], "20", ("-DREAL", "-fwrapv"), None, False, "-O2")
        m1 = ex.submit(ctx.model_check, "CounterMC", "CounterMC.cfg", workers=2, min_states=256)
        m2 = ex.submit(ctx.model_check, "CounterMC", ctx.scale("CounterSteps.cfg", "CounterSteps3.cfg"), workers=3, min_states=1000)
        edges, _, fib, e11, e20 = m1.result(), m2.result(), ff.result(), r11.result(), r20.result()
    rng = ctx.rng
    jobs = []
    for ty, e, c in (("i8", e11, "a"), ("u8", e20, "b"), ("ch", e20, "c")):
        sq, n = seq_scripts(ctx, [(s, o + [0], t) for s, o, t in edges], ty, 0, 400, [])
        jobs.append((e, sq, c)); ctx.notes["model_transitions_replayed"] = n
    st = ["%d,%d,%d" % (t, k, rng.randint(1, 10 ** 6)) for t, k in ctx.scale([(2, 15000), (8, 3000)], [(2, 100000), (4, 100000), (8, 50000)])]
    jobs += [(e11, [("stress_" + ty, ["s," + s]) for s in st[:ctx.scale(1, 3)] for ty in CT], "d"), (e20, [("stress_" + ty, ["s," + s]) for s in st for ty in CT], "e")]
    for e, c in ((e11, "f"), (e20, "g")): jobs.append((e, [counter_program(rng, ty, rng.randint(1, 3), 25, "seq") for ty in CT for _ in range(ctx.scale(12, 100))], c))
    if fib:
        sc = []
        for i in range(ctx.scale(140, 1000)):
            nt = rng.choice([2, 2, 3]); sc.append(counter_program(rng, rng.choice(list(CT)), nt, 3 if nt == 2 else 2, "go,%d,%d,%d,%d,0" % (rng.choice([2, 3, 4]), ctx.scale(250, 5000), ctx.scale(120, 3000), rng.randint(1, 10 ** 6))))
        jobs.append((fib, sc, "h"))
    judge(ctx, "CounterTrace", jobs)
    ctx.need_ops(["made", "inv", "ret", "final", "stress"])
    ctx.assumptions += ["one total order per counter, which relaxed atomic operations have: sequentially consistent interleavings lose nothing for a single counter"]
