"""Machinery shared by all checks: building drivers, exhaustive TLC runs, recording traces, validating them with TLC."""
import json, os, re, shutil, subprocess, sys, time, random, hashlib, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


class Violated(Exception):
    """A violation found outside of a trace (reported already)."""


class Rejected:
    def __init__(self, trace, l, state, module, env, why):
        self.trace, self.l, self.state, self.module, self.env, self.why = trace, l, state, module, env, why


class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        try: self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError: self.seed = 1
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.out = os.path.join(VERIF, "out", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.ops = {}
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.violations = []
        self.known = []
        self.lock = threading.Lock()

    thorough = property(lambda s: s.tier == "thorough")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, name, srcs, std="17", flags=(), parts=None, asan=True, opt="-O1", cxx="g++", libs=(), public=True):
        """Compiles harness sources against REPO/include. parts=n compiles each source n times with -DPART=i, in parallel."""
        exe = os.path.join(self.out, name)
        base = [cxx, "-std=c++" + std, "-g1", opt, "-fno-omit-frame-pointer", "-I" + os.path.join(REPO, "include"),
                "-I" + HARN, "-w", "-pipe"] + list(flags)
        if asan: base += ["-fsanitize=address"]
        jobs, objs = [], []
        for s in srcs:
            for i in range(parts or 1):
                o = "%s.%s.%d.o" % (exe, os.path.basename(s), i)
                objs.append(o)
                jobs.append(base + (["-DPART=%d" % i] if parts else []) + ["-c", os.path.join(HARN, s), "-o", o])
        def run(cmd):
            for _ in range(2):
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                if not r.returncode: return
            if public and "error:" in r.stdout and "-c" in cmd and not re.search("internal compiler error|Killed|No space left", r.stdout):
                self.unusable(cmd, r.stdout, base)
            raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(run, jobs))
        run(base + objs + ["-o", exe, "-lpthread"] + list(libs))
        return exe

    def unusable(self, cmd, out, base):
        """The driver uses the public interface as the property describes it. If the headers compile by themselves but that use does
        not, the property does not hold for it; if they do not, the tree cannot be judged."""
        src = open(cmd[cmd.index("-c") + 1]).read()
        heads = re.findall(r"#include <(itlib/[^>]+)>", src)
        tu = os.path.join(self.out, "headers.cpp")
        with self.lock:
            open(tu, "w").write("".join("#include <%s>\n" % h for h in heads) + '#include "vh.hpp"\n')
            r = subprocess.run(base + ["-fsyntax-only", tu], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode or not heads: return
            if not self.violations:
                os.makedirs(os.path.join(VERIF, "out", "replay"), exist_ok=True)
                path = os.path.join(VERIF, "out", "replay", "%s-compile.json" % self.pid)
                json.dump({"property": self.pid, "why": "a use the property covers does not compile", "command": cmd, "output": out[-8000:]}, open(path, "w"), indent=1)
                self.log("a use of the public interface covered by the property does not compile:\n" + out[-3000:])
                self.violations.append(path)
                print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)
        raise Violated()

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=2, args=(), timeout=600, xmx="2g", extra_jvm=()):
        with self.lock:
            self._n = getattr(self, "_n", 0) + 1
            meta = os.path.join(self.out, "tlc%d" % self._n)
        os.makedirs(meta)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss64m", "-XX:TieredStopAtLevel=4"] + list(extra_jvm) + \
              ["-cp", TLA_CP, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
               "-config", os.path.join(SPEC, cfg)] + list(args) + [module]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out after %ds on %s" % (timeout, module))
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct", r.stdout)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return r.returncode, r.stdout, gen, dist, time.time() - t

    def model_check(self, module, cfg, env=None, workers=4, timeout=600, min_states=1, args=(), xmx="4g"):
        """Exhaustive run of the specification alone: any failure is a failure of the specification, not of the code."""
        rc, out, gen, dist, dt = self.tlc(module, cfg, env, workers, args, timeout, xmx)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking %s/%s failed (rc %d):\n%s" % (module, cfg, rc, out[-5000:]))
        if dist < min_states: raise CheckError("%s/%s explored only %d states" % (module, cfg, dist))
        with self.lock:
            self.states += dist; self.transitions += gen
        self.log("model %s/%s: %d distinct states, %d transitions, %.1fs" % (module, cfg, dist, gen, dt))
        edges = []
        for line in out.splitlines():
            if line.startswith('"EDGE '):
                s = json.loads(line)          # TLC prints strings quoted and escaped
                edges.append(s[5:])
        return [json.loads(x) for x in sorted(set(edges))]   # TLC's order depends on its threads

    # ---------------------------------------------------------------- recording
    def record(self, exe, scripts, tag, args=(), env=None, timeout=300, shards=None, per_script_s=None):
        """Runs a driver over op scripts. A script is (cfg, [ops]) with op a string 'name,arg,arg'.
        Returns list of trace dicts {id,cfg,ev}. A crash or hang becomes a final event {"op":"Crash"}."""
        n = shards or NCPU
        parts = [scripts[i::n] for i in range(n)]
        res = [None] * n
        def work(i):
            res[i] = self._record_shard(exe, parts[i], "%s.%d" % (tag, i), list(args), env, timeout)
        with ThreadPoolExecutor(n) as ex: list(ex.map(work, range(n)))
        out = []
        for i in range(n):
            for j, t in enumerate(res[i]):
                t["script"] = parts[i][t["id"]]
                t["shard"] = (i, n)
                out.append(t)
        return out

    def _record_shard(self, exe, scripts, tag, args, env, timeout):
        if not scripts: return []
        sf, tf = os.path.join(self.out, tag + ".scripts"), os.path.join(self.out, tag + ".ndjson")
        with open(sf, "w") as f:
            for cfg, ops in scripts: f.write(cfg + " " + " ".join(ops) + "\n")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=2048"
        e["TSAN_OPTIONS"] = "exitcode=98:halt_on_error=1"
        e.update(env or {})
        traces, start, crashes = [], 0, 0
        while start < len(scripts):
            if os.path.exists(tf): os.remove(tf)
            t0 = time.time()
            try:
                r = subprocess.run([exe, sf, tf, str(start)] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=timeout, errors="replace", text=True)
                rc, text = r.returncode, r.stdout
            except subprocess.TimeoutExpired as ex:
                rc, text = -999, "driver timed out"
            lines = open(tf, errors="replace").read().split("\n") if os.path.exists(tf) else []
            last = lines.pop() if lines else ""
            for i, x in enumerate(lines): traces.append(dict(json.loads(x), id=start + i))
            if rc == 0 and not last: break
            if rc in (3, 4): raise CheckError("driver %s: %s" % (exe, text[-2000:]))   # harness says it cannot run
            # incomplete trace: repair it and mark the crash
            why = {-14: "hang", -999: "hang"}.get(rc, "crash")
            t = self._repair(last, scripts, start + len(lines))
            t["id"] = min(start + len(lines), len(scripts) - 1)      # a program gone wild may have written anything
            m = re.search(r"SUMMARY: .*|.*Assertion.*|terminate called.*|what\(\).*", text)
            t["ev"].append({"op": "Crash", "why": why, "rc": rc, "msg": (m.group(0) if m else text[-300:])[:300]})
            t["crash_output"] = text[-4000:]
            traces.append(t)
            crashes += 1
            start = t["id"] + 1
            if crashes >= 5: break
        if os.path.exists(tf): os.remove(tf)
        return traces

    @staticmethod
    def _repair(last, scripts, idx):
        for end in ("]}", "}]}", ""):
            s = last.rstrip(",")
            try: return json.loads(s + end)
            except ValueError: pass
        # cut back to the last complete event
        s = last
        while True:
            k = s.rfind("},{")
            if k < 0: break
            s = s[:k + 1]
            try: return json.loads(s + "]}")
            except ValueError: continue
        m = re.match(r'\{"id":(\d+),"cfg":(\{.*?\}),"ev":\[', last)
        if m:
            return {"id": int(m.group(1)), "cfg": json.loads(m.group(2)), "ev": []}
        return {"id": idx, "cfg": {}, "ev": []}

    # ---------------------------------------------------------------- validation
    def validate(self, module, traces, cfg=None, env=None, shards=4, workers=2, timeout=800, xmx="3g", count=True, tag="v"):
        """Checks every trace against the trace specification. Returns a list of Rejected (at most one per shard)."""
        cfg = cfg or module + ".cfg"
        env = dict(env or {})
        # a trace whose configuration record never got written is a crash before the first operation
        pre = [t for t in traces if not t["cfg"]]
        if pre:
            t = pre[0]
            return [Rejected(t, 0, "", module, env, "the program died before the first operation: " + json.dumps(t["ev"]))]
        shards = max(1, min(shards, len(traces)))
        order = sorted(traces, key=lambda t: -len(t["ev"]))
        buckets, load = [[] for _ in range(shards)], [0] * shards
        for t in order:
            k = load.index(min(load)); buckets[k].append(t); load[k] += len(t["ev"]) + 2
        rej = []
        def work(k):
            f = os.path.join(self.out, "%s.%s.%d.ndjson" % (tag, module, k))
            with open(f, "w") as fh:
                for t in buckets[k]: fh.write(json.dumps({"cfg": t["cfg"], "ev": t["ev"]}) + "\n")
            e = dict(env); e["TRACES"] = f
            rc, out, gen, dist, dt = self.tlc(module, cfg, e, workers, (), timeout, xmx)
            if rc == 0 and "No error has been found" in out:
                if count:
                    with self.lock:
                        self.states += dist; self.transitions += gen
                os.remove(f)
                return
            r = self._parse_reject(out, buckets[k], module, env)
            if r is None:
                keep = os.path.join(VERIF, "out", "tlc-error-%s-%s.txt" % (self.pid, module))
                open(keep, "w").write(out)
                raise CheckError("TLC failed on %s (rc %d), output in %s:\n%s" % (module, rc, keep, out[-3000:]))
            with self.lock: rej.append(r)
        with ThreadPoolExecutor(shards) as ex: list(ex.map(work, range(shards)))
        if count:
            with self.lock:
                self.traces += len(traces)
                self.events += sum(len(t["ev"]) for t in traces)
                for t in traces:
                    for ev in t["ev"]:
                        o = ev.get("op", "?"); self.ops[o] = self.ops.get(o, 0) + 1
                if len(self.samples) < 3 and traces:
                    for t in traces[:: max(1, len(traces) // 2)][: 3 - len(self.samples)]:
                        self.samples.append({"cfg": t["cfg"], "script": t["script"][1][:12] if "script" in t else None,
                                             "events": [{k: v for k, v in ev.items() if k != "mem"} for ev in t["ev"][:3]]})
        return rej

    @staticmethod
    def _parse_reject(out, traces, module, env):
        why = None
        if "Error: Deadlock reached." in out: why = "no action of the specification allows this event"
        else:
            m = re.search(r"Error: Invariant (\w+) is violated", out)
            if m: why = "invariant %s is violated after this event" % m.group(1)
            m = re.search(r"Error: (?:Action property|Property) (.*?) is violated", out)
            if m: why = "property %s is violated by this event" % m.group(1)
        if why is None: return None
        tids, ls = re.findall(r"(?:/\\ )?tid = (\d+)", out), re.findall(r"(?:/\\ )?l = (\d+)", out)
        if not tids: return None
        t, l = traces[int(tids[-1]) - 1], int(ls[-1])
        if "nvariant" in why or "property" in why: l -= 1
        st = out[out.rfind("State "):] if "State " in out else out[-3000:]
        return Rejected(t, l, st[:3000], module, env, why)

    # ---------------------------------------------------------------- verdicts
    def confirm_and_report(self, rej, rerun=None, tries=2):
        """rerun(trace) -> list of Rejected for a fresh recording of the same script (or None to re-validate the recording)."""
        ok = 0
        for _ in range(tries):
            again = rerun(rej.trace) if rerun else self.validate(rej.module, [rej.trace], env=rej.env, shards=1, count=False, tag="c")
            if again: ok += 1; break
        if not ok:
            # not reproducible from a fresh start: the recording itself must at least be rejected again
            again = self.validate(rej.module, [rej.trace], env=rej.env, shards=1, count=False, tag="c")
            if not again: raise CheckError("a rejection could not be repeated: %s" % rej.why)
            self.log("note: rejection not reproduced by a fresh run of the same script; reporting the recording itself")
        self.report(rej)

    def report(self, rej):
        os.makedirs(os.path.join(VERIF, "out", "replay"), exist_ok=True)
        ev = rej.trace["ev"]
        bad = ev[rej.l - 1] if 0 < rej.l <= len(ev) else None
        h = hashlib.sha1(json.dumps([rej.trace.get("script"), bad], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "out", "replay", "%s-%s.json" % (self.pid, h))
        json.dump({"property": self.pid, "module": rej.module, "env": rej.env, "why": rej.why, "script": rej.trace.get("script"),
                   "cfg": rej.trace["cfg"], "event_number": rej.l, "event": bad, "spec_state_before": rej.state,
                   "trace": ev, "crash_output": rej.trace.get("crash_output")}, open(path, "w"), indent=1)
        self.log("rejected by %s: %s" % (rej.module, rej.why))
        self.log("  script:", rej.trace.get("script"))
        self.log("  event %d: %s" % (rej.l, json.dumps(bad)[:1500]))
        if rej.state: self.log("  specification state before:\n" + rej.state[:1500])
        self.violations.append(path)
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def need_ops(self, names, cfgs=None):
        missing = [n for n in names if not self.ops.get(n)]
        if missing and not self.violations: raise CheckError("vacuous run: operations never exercised: %s" % missing)

    def finish(self, level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "operations": dict(sorted(self.ops.items())), "samples": self.samples or ["none"]}
        cov.update(self.notes); cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.pid, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        shutil.rmtree(self.out, ignore_errors=True)
        self.log("traces %d, events %d, spec states %d, violations %d" % (self.traces, self.events, self.states, len(self.violations)))
        return 1 if self.violations else 0


# -------------------------------------------------------------------- scripts from the specification's state graph
def edge_scripts(edges, cfgname, maxlen=40, rng=None, init=None):
    """edges: list of [state, op, state'] (JSON). Returns scripts whose walks cover every edge."""
    from collections import deque
    key = lambda s: json.dumps(s, sort_keys=True)
    adj, seen = {}, set()
    first = None
    for s, op, t in edges:
        ks, kt, o = key(s), key(t), ",".join(str(x) for x in op)
        if first is None: first = ks
        if (ks, o, kt) in seen: continue
        seen.add((ks, o, kt))
        adj.setdefault(ks, []).append((o, kt)); adj.setdefault(kt, [])
    start = key(init) if init is not None else first
    un = {k: list(v) for k, v in adj.items()}
    for v in un.values(): (rng or random.Random(1)).shuffle(v)
    left = sum(len(v) for v in un.values())
    scripts = []
    while left:
        cur, walk, progressed = start, [], False
        while len(walk) < maxlen:
            if un[cur]:
                o, t = un[cur].pop(); left -= 1; progressed = True
                walk.append(o); cur = t
                continue
            # nearest state with an uncovered edge
            prev, q, hit = {cur: None}, deque([cur]), None
            while q:
                x = q.popleft()
                if un[x]: hit = x; break
                for o, t in adj[x]:
                    if t not in prev: prev[t] = (x, o); q.append(t)
            if hit is None: break
            path, x = [], hit
            while prev[x] is not None:
                x, o = prev[x]; path.append(o)
            if progressed and len(walk) + len(path) >= maxlen: break
            walk.extend(reversed(path)); cur = hit
        if not progressed: break
        scripts.append((cfgname, walk))
    return scripts, len(seen), left


def dedup(scripts):
    seen, out = set(), []
    for c, ops in scripts:
        k = (c, tuple(ops))
        if k not in seen: seen.add(k); out.append((c, ops))
    return out


def known_findings(pid):
    """Entries of /verif/known_findings.txt for this property that are not fixed: {key: text}"""
    res = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid: res[m.group(2)] = m.group(3)
    return res


def judge(ctx, module, jobs, args=()):
    """jobs: [(exe, scripts, tag)]"""
    traces, exes = [], {}
    with ThreadPoolExecutor(len(jobs)) as ex:
        fs = [(exe, ex.submit(ctx.record, exe, sc, tag, shards=min(8, max(1, len(sc))))) for exe, sc, tag in jobs if sc]
        for exe, f in fs:
            for t in f.result(): t["exe"] = exe; traces.append(t)
    ctx.log("recorded %d traces, %d executions, %d events" % (len(traces), sum(sum(1 for e in t["ev"] if e["op"] == "Start") for t in traces), sum(len(t["ev"]) for t in traces)))
    ctx.notes["executions"] = sum(sum(1 for e in t["ev"] if e["op"] == "Start") for t in traces)
    # a sanitizer's report of a data race ends the trace as a crash and is rejected as one
    for r in ctx.validate(module, traces)[:1]:
        ctx.confirm_and_report(r, lambda t: ctx.validate(module, ctx.record(t["exe"], [t["script"]], "c", shards=1), shards=1, count=False, tag="c"))
