"""Shared machinery of the checks: TLC runs, case validation, evidence, verdicts."""
import os, sys, json, subprocess, time, tempfile, shutil, random, re, glob, multiprocessing as mp, traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
import build as _b
BIN = _b.BIN
SPEC = os.path.join(VERIF, "spec")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = min(8, os.cpu_count() or 2)

class ModelError(Exception):
    """The specification or the harness failed: an error of the check, not a verdict on the code."""

def thorough():
    return TIER == "thorough"

def pick(q, t):
    return t if thorough() else q

# ---------------------------------------------------------------- scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(VERIF, "build", "scratch")
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="c%d_" % os.getpid(), dir=base)
    return _scratch

def cleanup():
    global _scratch
    if _scratch and os.path.isdir(_scratch) and "/build/scratch/" in _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None

# ---------------------------------------------------------------- TLC
TLC_JAR = "/opt/veriftools/tla/tla2tools.jar"

def _tlc_cmd():
    return ["tlc"]

class TlcResult:
    def __init__(s):
        s.states = s.distinct = s.transitions = 0
        s.out = ""; s.ok = False; s.violated = None; s.lines = []

def tlc(module, cfg, env=None, workers=NCPU, timeout=600, extra=(), deadlock=False, heap=None):
    """Run TLC on spec/<module>.tla with spec/<cfg>.  Returns TlcResult; raises ModelError on a broken model."""
    md = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    e = dict(os.environ); e.update(env or {})
    jopts = "-XX:+UseParallelGC -Xss48m -Xmx%s" % (heap or pick("4g", "8g"))
    e["JAVA_TOOL_OPTIONS"] = jopts
    cmd = _tlc_cmd() + ["-config", cfg, "-metadir", md, "-workers", str(workers), "-noGenerateSpecTE"]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ModelError("TLC timed out on %s/%s after %ss" % (module, cfg, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r = TlcResult(); r.out = p.stdout + p.stderr; r.rc = p.returncode; r.wall = time.time() - t0
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out.replace(",", ",")) or \
        re.search(r"([\d,]+) states generated, ([\d,]+) distinct", r.out)
    if m:
        r.transitions = int(m.group(1).replace(",", "")); r.distinct = r.states = int(m.group(2).replace(",", ""))
    if "Model checking completed. No error has been found" in r.out:
        r.ok = True
    else:
        m = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|Temporal properties were violated|POSTCONDITION|Postcondition (\S+)", r.out)
        r.violated = m.group(0) if m else None
        if not m:
            raise ModelError("TLC failed on %s/%s (rc %s):\n%s\n...\n%s" % (module, cfg, p.returncode, "\n".join(a + "\n" + b for a, b in zip(r.out.splitlines(), r.out.splitlines()[1:] + [""]) if "rror" in a)[:1500], r.out[-2500:]))
    return r

def mc(module, cfg, min_states=2, **kw):
    """Exhaustive model check that must succeed: a failure is a broken model."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ModelError("model %s/%s does not satisfy its own properties: %s\n%s" % (module, cfg, r.violated, r.out[-4000:]))
    if r.states < min_states:
        raise ModelError("model %s/%s explored only %d states" % (module, cfg, r.states))
    return r

def gen(module, cfg, **kw):
    """Cases enumerated by TLC: lines printed as  "CASE|<json>"  by the model."""
    r = mc(module, cfg, workers=1, **kw)
    cases = []
    for ln in r.out.splitlines():
        ln = ln.strip()
        if ln.startswith('"CASE|'):
            cases.append(json.loads(json.loads(ln)[5:]))
    if not cases:
        raise ModelError("%s/%s generated no cases\n%s" % (module, cfg, r.out[-2000:]))
    return cases, r

def _clean(o):
    if isinstance(o, dict):
        return {str(k): _clean(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_clean(v) for v in o]
    if isinstance(o, bool):
        return o
    if hasattr(o, "item"):
        o = o.item()
    if isinstance(o, float):
        if o != int(o):
            raise ModelError("float in a case: %r" % o)
        o = int(o)
    if isinstance(o, int):
        if not -2**31 <= o < 2**31:
            raise ModelError("integer beyond 32 bits in a case: %r" % o)
        return o
    if o is None:
        return "NULL"
    return o

_VERD = re.compile(r'^<<"VERDICT", (-?\d+), (.*)>>$')

def validate(module, cases, cfg=None, chunk=None, timeout=600, workers=NCPU):
    """Check recorded cases against the specification.

    Every case is one behaviour of <module> (the model is started in the recorded configuration, takes its
    own steps, and its final action compares what the model says with what the tool did).
    Returns ({id: failed-clauses string}, TlcResult-like totals)."""
    cfg = cfg or module + ".cfg"
    tot = TlcResult(); bad = {}
    tot.ok = True
    n = len(cases)
    if n == 0:
        raise ModelError("no cases for " + module)
    for i, c in enumerate(cases):
        c["id"] = i
    chunk = chunk or n
    for s in range(0, n, chunk):
        part = cases[s:s + chunk]
        f = os.path.join(scratch(), "%s_%d_%d.ndjson" % (module, os.getpid(), s))
        with open(f, "w") as fh:
            for c in part:
                fh.write(json.dumps(_clean(c)) + "\n")
        r = tlc(module, cfg, env={"CASES": f}, timeout=timeout, workers=workers)
        if not r.ok:
            raise ModelError("%s: %s\n%s" % (module, r.violated, r.out[-3000:]))
        # TLC may wrap long printed values over several lines
        txt = r.out
        seen = {}
        for m in re.finditer(r'<<\s*"VERDICT",\s*(-?\d+),\s*(\{.*?\})\s*>>', txt, re.S):
            seen[int(m.group(1))] = re.sub(r"\s+", " ", m.group(2))
        miss = [c["id"] for c in part if c["id"] not in seen]
        if miss:
            raise ModelError("%s: no verdict for cases %s\n%s" % (module, miss[:10], r.out[-3000:]))
        for k, v in seen.items():
            if v != "{}":
                bad[k] = v
        tot.states += r.states; tot.transitions += r.transitions
        os.unlink(f)
    return bad, tot

# ---------------------------------------------------------------- running tools
def tool_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("VERIF_", "JAVA_", "LD_PRELOAD"))}
    e["PATH"] = BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LC_ALL"] = "C"
    e["PKGLIBEXECDIR"] = BIN
    e["LIST_NCVARS"] = os.path.join(BIN, "list_ncvars.sh")
    e["PREFIX"] = BIN
    e["TMPDIR"] = "/tmp"
    e["OMP_NUM_THREADS"] = "1"
    e.update(_b.OMPI)
    if extra:
        e.update(extra)
    return e

class Res:
    pass

def run(cmd, cwd, env=None, timeout=120, stdin=None):
    r = Res()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or tool_env(), capture_output=True, timeout=timeout,
                           input=stdin, start_new_session=True)
        r.rc = p.returncode; r.out = p.stdout.decode("utf8", "replace"); r.err = p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        r.rc = 9999; r.out = ""; r.err = "timeout"
    return r

def tool(name):
    return os.path.join(BIN, name)

def mpirun(np_, cmd, cwd, timeout=180):
    return run(["mpirun", "--oversubscribe", "-n", str(np_)] + cmd, cwd, timeout=timeout)

def _worker(args):
    fn, i, a = args
    d = os.path.join(_wdir[0], "case%05d" % i)
    os.makedirs(d, exist_ok=True)
    try:
        return ("ok", fn(a, d))
    except Exception:
        return ("err", traceback.format_exc())
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(d, ignore_errors=True)

_wdir = [None]
def pmap(fn, items, procs=NCPU):
    """fn(item, private_dir) in parallel processes; a Python error is an error of the check."""
    _wdir[0] = tempfile.mkdtemp(prefix="w_", dir=scratch())
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        res = pool.map(_worker, [(fn, i, a) for i, a in enumerate(items)], chunksize=max(1, min(8, len(items) // (procs * 4) or 1)))
    out = []
    for k, v in res:
        if k == "err":
            raise ModelError("harness error in a case:\n" + v)
        out.append(v)
    return out

# ---------------------------------------------------------------- verdict
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid; self.level = level; self.t0 = time.time()
        self.states = 0; self.transitions = 0; self.traces = 0
        self.samples = []; self.cov = {}; self.assumptions = []
        self.violations = []; self.known = []
        kf = os.path.join(VERIF, "known", "findings.json")
        self.findings = [f for f in json.load(open(kf))["known"] if f["property"] == pid] if os.path.exists(kf) else []
        random.seed(SEED * 1000003 + int(re.sub(r"\D", "", pid)))

    def add_mc(self, r):
        self.states += r.states; self.transitions += r.transitions

    def conform(self, module, cases, rerun=None, sample=1, describe=None, **kw):
        """Validate cases; re-run the rejected ones once (rerun(case)->case) and keep what repeats."""
        bad, r = validate(module, cases, **kw)
        self.states += r.states; self.transitions += r.transitions
        self.traces += len(cases)
        if cases and len(self.samples) < 12:
            for c in (cases[:sample] if sample else []):
                s = json.dumps(_clean(describe(c) if describe else c))
                self.samples.append(json.loads(s) if len(s) < 3000 else s[:3000])
        if not bad:
            return
        ids = sorted(bad)
        print("[%s] %d of %d recorded cases rejected by %s; re-running them" % (self.pid, len(ids), len(cases), module), flush=True)
        if rerun is not None:
            again = [rerun(cases[i]) for i in ids[:40]]
            bad2, r2 = validate(module, again, **kw)
            rep = [(again[k], bad2[k]) for k in sorted(bad2)]
        else:
            rep = [(cases[i], bad[i]) for i in ids]
        for c, why in rep:
            self.report(module, c, why)

    def report(self, where, case, why):
        key = {k: case.get(k) for k in ("key", "repro", "kind") if isinstance(case, dict) and k in case}
        for f in self.findings:
            if f.get("match") and isinstance(case, dict) and case.get("key") == f["match"]:
                if f["id"] not in [k["id"] for k in self.known]:
                    self.known.append(f)
                return
        self.violations.append({"where": where, "why": why, "case": case})

    def require(self, cond, where, case, why):
        if not cond:
            self.report(where, case, why)
        return cond

    def finish(self):
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": dict(self.cov), "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations), "assumptions": self.assumptions}
        c = ev["coverage"]
        c["states"] = self.states; c["transitions"] = self.transitions
        c["traces_validated_against_impl"] = self.traces
        c["samples"] = self.samples[:12]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for f in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        if self.violations:
            d = os.path.join(VERIF, "out"); os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s.violation.json" % self.pid)
            with open(p, "w") as fh:
                json.dump(_safe(self.violations[:20]), fh, indent=1)
            for v in self.violations[:5]:
                print("  rejected by %s: %s" % (v["where"], v["why"]))
                if isinstance(v["case"], dict):
                    for k in ("repro", "kind", "cmd"):
                        if k in v["case"]:
                            print("    %s: %s" % (k, str(v["case"][k])[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        print("OK property=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.pid, self.states, self.transitions, self.traces, time.time() - self.t0), flush=True)
        return 0

def _safe(o):
    return json.loads(json.dumps(o, default=str))

def main(pid, targets, body, level="model_checking"):
    """Entry point of a check: build, run body(check), write evidence, exit 0/1 (2: error of the check)."""
    try:
        try:
            _b.build(targets)
        except _b.BuildError as e:
            print("ERROR: build failed\n%s" % e); return 2
        ck = Check(pid, level)
        body(ck)
        return ck.finish()
    except ModelError as e:
        print("ERROR of the check: %s" % e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        cleanup()
