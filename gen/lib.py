"""Machinery shared by every check: build the driver, run programs, validate the
recorded events with TLC, report."""
import json, os, random, shutil, subprocess, sys, tempfile, time, re, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = 8

class CheckError(Exception):
    pass

def scratch_root():
    for base in ("/dev/shm", os.environ.get("TMPDIR", "/tmp")):
        try:
            return tempfile.mkdtemp(prefix="verif.", dir=base)
        except OSError:
            continue
    raise CheckError("no scratch directory")

def build_driver(scratch, flags=()):
    out = os.path.join(scratch, "driver")
    p = subprocess.run([os.path.join(VERIF, "bin/build_driver.sh"), out, *flags], capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("driver build failed:\n" + p.stdout + p.stderr)
    return out

def read_ndjson(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                try: out.append(json.loads(line))
                except json.JSONDecodeError: pass   # torn last line of a killed driver
    return out

def run_driver(driver, segs, work, optimeout=30):
    """Runs segments (lists of ops, first op 'seg') and returns the events. A driver killed by the code
    under test (a panic on a goroutine of the library) becomes a 'crash' event of its segment."""
    todo = list(segs); events = []; n = 0
    while todo:
        n += 1
        prog, trace, sc = (os.path.join(work, f"{x}{n}") for x in ("prog", "trace", "sc"))
        with open(prog, "w") as f:
            for s in todo:
                for op in s: f.write(json.dumps(op) + "\n")
        os.makedirs(sc, exist_ok=True)
        env = dict(os.environ, GODEBUG="randautoseed=0", GOTRACEBACK="single", GORACE="halt_on_error=1", HOME="/root")
        try:
            p = subprocess.run([driver, "-in", prog, "-out", trace, "-scratch", sc, "-optimeout", str(optimeout)],
                               capture_output=True, text=True, timeout=850, env=env)
        except subprocess.TimeoutExpired:
            raise CheckError("driver timed out")
        finally:
            shutil.rmtree(sc, ignore_errors=True)
        evs = read_ndjson(trace)
        os.remove(prog)
        if os.path.exists(trace): os.remove(trace)
        events += evs
        if p.returncode == 0: return events
        if p.returncode == 3 or "harness:" in p.stderr:
            raise CheckError("driver error: " + p.stderr[-2000:])
        # the code under test brought the process down
        if not re.search(r"/repo/(pkg|internal)/", p.stderr) or "/repo/cmd/verifdriver" in first_frames(p.stderr):
            raise CheckError("driver died outside the code under test: " + p.stderr[-3000:])
        cur = next((e["seg"] for e in reversed(evs) if e["op"] == "seg"), todo[0][0]["seg"])
        done = sum(1 for e in evs if e.get("op") != "x") # informational
        events.append({"op": "crash", "panic": next((x for x in p.stderr.split("\n") if x.strip("= ")), "died")[:200], "stuck": False, "ok": False, "seg": cur})
        idx = next(i for i, s in enumerate(todo) if s[0]["seg"] == cur)
        todo = todo[idx + 1:]
    return events

def first_frames(stderr):
    """The frames above the first frame in /repo/pkg or /repo/internal of the crashing goroutine."""
    out = []
    for line in stderr.split("\n"):
        if re.search(r"/repo/(pkg|internal)/", line): break
        out.append(line)
    return "\n".join(out)

def tlc(module, cfg, work, env=None, workers=1, extra=(), mem="2g", timeout=840, dfs=False):
    """Runs TLC and returns its output. Raises CheckError if TLC itself failed."""
    meta = tempfile.mkdtemp(prefix="meta", dir=work)
    cfgf = os.path.join(work, f"{module}.{os.path.basename(meta)}.cfg")
    with open(cfgf, "w") as f: f.write(cfg)
    opts = ["-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", f"-Xmx{mem}", "-Xss32m", "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={work}"]
    if dfs: opts.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd = ["java", *opts, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfgf, *extra, os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=SPEC, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr, p.returncode

def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m: return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])

TRACE_CFG = "SPECIFICATION Spec\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n"

def validate(module, events, work, inv="TraceInv", dfs=False, mem="2g"):
    """Returns None if the specification admits the events, else the index of the first event it rejects;
    and (states, transitions)."""
    fd, path = tempfile.mkstemp(prefix="ev", suffix=".ndjson", dir=work)
    with os.fdopen(fd, "w") as f:
        for e in events: f.write(json.dumps(e) + "\n")
    out, rc = tlc(module, (TRACE_CFG.replace("SPECIFICATION Spec", "SPECIFICATION CSpec") if module.startswith("Conc_") else TRACE_CFG) + (f"INVARIANT {inv}\n" if inv else ""), work, env={"TRACE": path}, dfs=dfs, mem=mem)
    os.remove(path)
    gen, dist = tlc_stats(out)
    m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
    if "is violated" in out and "Invariant" in out:
        n = len(re.findall(r"^State \d+:", out, re.M))
        return max(n - 2, 0), (dist, gen), out
    if "The error occurred when TLC was evaluating" in out and "OutOfMemory" not in out and "StackOverflow" not in out:
        # a reported value lies outside what the specification's operators are defined on: nothing it admits
        return max(len(re.findall(r"^State \d+:", out, re.M)) - 1, 0), (dist, gen), out
    if not m or rc not in (0,):
        raise CheckError(f"TLC failed on {module} (rc={rc}):\n" + out[-1800:])
    n, total = int(m[1]), int(m[2])
    if total != len(events): raise CheckError("TLC read a different trace")
    return (None if n == total else n), (dist, gen), out

def shard(segs, n=NPROC):
    out = [[] for _ in range(min(n, len(segs)))]
    for i, s in enumerate(segs): out[i % len(out)].append(s)
    return out

class Run:
    """One check run."""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.t0 = time.time()
        self.scratch = scratch_root()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0, "samples": []}
        self.ops = {}
        self.assumptions = []
        self.violations = []
        self.known = []
        self._driver = {}
        self.findings = load_findings(prop)

    def scale(self, quick, thorough):
        if self.tier == "thorough": return max(quick, thorough)
        # a quick run is sized in units of about ten seconds; three of them, except where one is already long or decides what to enumerate
        return quick * int(os.environ.get("VERIF_SCALE", 0)) if quick > 1 and "VERIF_SCALE" in os.environ else quick * (1 if quick <= 1 or self.prop in ("C16", "C02") else 3)

    def driver(self, *flags):
        if flags not in self._driver:
            d = os.path.join(self.scratch, "bin" + hashlib.md5(repr(flags).encode()).hexdigest()[:6])
            os.makedirs(d)
            self._driver[flags] = build_driver(d, flags)
        return self._driver[flags]

    def rng(self, salt=""):
        return random.Random(f"{SEED}/{self.prop}/{salt}")

    def model_check(self, module, cfg, workers=NPROC, mem="8g", label=None):
        """Exhaustive check of a finite model; a violation here is a defect of the specification, not of the code."""
        out, rc = tlc(module, cfg, self.scratch, workers=workers, mem=mem)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model {module} does not satisfy its invariants:\n" + out[-1800:])
        gen, dist = tlc_stats(out)
        self.cov["states"] += dist; self.cov["transitions"] += gen
        self.cov.setdefault("models", []).append({"model": label or module, "distinct_states": dist, "transitions": gen})

    def model_programs(self, module, cfg, label=None, mem="4g"):
        """Exhaustive check of a finite model that also writes out the program that reaches each state and the
        alphabet of operations. Returns (programs, alphabet)."""
        out, rc = tlc(module, cfg, self.scratch, workers=4, mem=mem)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model {module} does not satisfy its invariants:\n" + out[-1800:])
        gen, dist = tlc_stats(out)
        self.cov["states"] += dist; self.cov["transitions"] += gen
        progs, alpha = [], []
        for line in out.split("\n"):
            if line.startswith('"PROG ') or line.startswith('"ALPHA '):
                k, v = json.loads(line).split(" ", 1)
                (progs.append if k == "PROG" else alpha.extend)(json.loads(v))
        progs.sort(key=lambda p: (len(p), json.dumps(p))); alpha.sort(key=json.dumps)
        self.cov.setdefault("models", []).append({"model": label or module, "distinct_states": dist, "transitions": gen, "programs": len(progs), "alphabet": len(alpha)})
        return progs, alpha

    def trace_check(self, module, segs, inv="TraceInv", optimeout=30, flags=(), dfs=False, post=None, mem="2g"):
        """Runs the segments on the real code and validates what they did."""
        if self.violations: return
        for i, s in enumerate(segs): s[0]["seg"] = i + 1
        drv = self.driver(*flags)
        def one(k_sh):
            k, sh = k_sh
            work = tempfile.mkdtemp(prefix="w", dir=self.scratch)
            evs = run_driver(drv, sh, work, optimeout)
            if post: evs = post(evs)
            todo, out = evs, []
            bad, st, log = validate(module, todo, work, inv, dfs, mem)
            shutil.rmtree(work, ignore_errors=True)
            return evs, bad, st, log
        with ThreadPoolExecutor(NPROC) as ex:
            results = list(ex.map(one, enumerate(shard(segs))))
        for evs, bad, st, log in results:
            self.cov["states"] += st[0]; self.cov["transitions"] += st[1]
            self.cov["events_validated"] += len(evs) if bad is None else bad
            self.cov["traces_validated_against_impl"] += sum(1 for e in evs[:len(evs) if bad is None else bad] if e["op"] == "seg")
            for e in evs:
                k = e["op"] + ("" if e.get("ok", True) else "/refused")
                self.ops[k] = self.ops.get(k, 0) + 1
            if not self.cov["samples"] and evs:
                self.cov["samples"].append({"module": module, "events": [slim(e) for e in evs[:6]]})
            if bad is not None:
                ev = evs[bad] if bad < len(evs) else {"op": "?"}
                start = max((i for i, e in enumerate(evs[:bad + 1]) if e["op"] == "seg"), default=0)
                segid = evs[start].get("seg")
                prog = next((s for s in segs if s[0]["seg"] == segid), [])
                self.violations.append({"module": module, "event": ev, "history": evs[start:bad + 1 + ev.get("gn", 0)], "program": prog})

    def finish(self):
        code = 0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        lines = []
        if self.violations:
            code = 1
            d = os.path.join(VERIF, "evidence", "replay"); os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:3]):
                path = os.path.join(d, f"{self.prop}-{i}.json")
                with open(path, "w") as f: json.dump(v, f, indent=1)
                lines.append(f"VIOLATION property={self.prop} replay={path}")
                lines.append("  rejected event: " + json.dumps(slim(v["event"]))[:1500])
        for k in self.known: lines.append(f"KNOWN-FINDING: property={self.prop} {k}")
        self.cov["operations"] = dict(sorted(self.ops.items()))
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        for l in lines: print(l)
        print(f"{self.prop}: {'VIOLATED' if code else 'held'}; {self.cov['traces_validated_against_impl']} traces, "
              f"{self.cov['events_validated']} events, {self.cov['states']} states, {ev['wall_s']} s")
        return code

def slim(e):
    return {k: v for k, v in e.items() if not (k in ("panic", "err", "msg", "misdated") and not v) and not (k == "stuck" and not v)}

def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "open"]
