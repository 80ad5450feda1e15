"""Check runner: harnesses, parallel execution, replay, evidence, verdict lines."""
import concurrent.futures as cf
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLATDATA_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
for _p in (os.path.join(REPO, "flatdata-generator"), os.path.join(REPO, "flatdata-py")):
    if _p not in sys.path:
        sys.path.insert(0, _p)
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.dont_write_bytecode = True
import merge        # noqa: E402
merge.install(REPO)

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


def tier(quick, thorough):
    return thorough if THOROUGH else quick


class Violated(Exception):
    """A property does not hold for concrete values on the real code."""


class EngineMismatch(Exception):
    """The encoding and the real code disagree: an error of the check, never a verdict."""


class Raised(Exception):
    """The code under test raised an exception the scenario does not expect."""

    def __init__(self, error, values):
        Exception.__init__(self, "%s: %s" % (type(error).__name__, error))
        self.error = error
        self.values = values


class Concrete:
    """Concrete twin of pysym.Explorer: runs a scenario on the unmodified code."""
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.observed = []
        self.reached = 0

    def int_in(self, name, lo, hi):
        v = self.values.get(name, min(max(lo, 0), hi))     # a path may end before a variable appears
        if not lo <= v <= hi:
            raise EngineMismatch("witness outside its declared range")
        return v

    def bytes(self, name, n, kind="bytes"):
        b = bytes(self.values.get("%s_%d" % (name, i), 0) & 255 for i in range(n))
        return bytearray(b) if kind == "bytearray" else b

    def boolean(self, name):
        return bool(self.values.get(name, 0))

    def assume(self, c):
        if not c:
            raise EngineMismatch("witness violates an assumption")

    def prove(self, c, label):
        self.reached += 1
        if not c:
            raise Violated(label)

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def literal(self, v):
        return str(v)

    def value(self, v):
        return v

    def same_text(self, a, b, label):
        self.prove(a == b, label)

    def observe(self, label, v):
        self.observed.append((label, _plain(v)))


def _plain(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (bytes, bytearray, memoryview)):
        return list(bytes(v))
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return v


class PyHarness:
    """Scenario over real Python code. `scenario(env)` runs identically under a symbolic and a
    concrete environment. `overrides`/`extra`/`omit` are passed to pysym.shimmed."""

    def __init__(self, name, scenario, functions, bounds, known=None, overrides=None, extra=(),
                 omit=(), max_paths=20000, validate=12, timeout_ms=120000, concretise_limit=600,
                 weight=1):
        self.name = name
        self.scenario = scenario
        self.functions = functions
        self.bounds = bounds
        self.known = known
        self.overrides = overrides
        self.extra = extra
        self.omit = omit
        self.max_paths = max_paths
        self.validate = validate
        self.timeout_ms = timeout_ms
        self.concretise_limit = concretise_limit
        self.weight = weight

    def execute(self):
        import pysym
        import z3
        r = Result(self)
        ex = pysym.Explorer(max_paths=self.max_paths, timeout_ms=self.timeout_ms,
                            concretise_limit=self.concretise_limit)
        ex.symbolic = True
        ex.all = pysym.sand
        witnesses = []

        def observe(label, v):
            ex.obs.append((label, v))
        ex.observe = observe

        def ev(m, v):
            if isinstance(v, pysym.SymInt):
                return m.eval(v.t, model_completion=True).as_signed_long()
            if isinstance(v, pysym.SymBool):
                return int(z3.is_true(m.eval(v.t, model_completion=True)))
            if isinstance(v, (pysym.SymBytes, pysym.SymStr)):
                return [c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()
                        for c in v.cells()]
            if isinstance(v, (list, tuple)):
                return [ev(m, x) for x in v]
            return _plain(v)

        def one(e):
            e.obs = []
            try:
                self.scenario(e)
            except pysym.Inconclusive as x:     # the engine cannot go on: is one of these inputs a counterexample?
                x.samples = e.samples(12)
                raise
            except (pysym.Counterexample, EngineMismatch):
                raise
            except Exception as x:      # the code raised where the scenario expects a result
                raise Raised(x, [e.witness()] + e.samples(12)) from x
            if len(witnesses) < self.validate or (ex.stats.paths % 37 == SEED % 37
                                                  and len(witnesses) < 4 * self.validate):
                vals = e.witness()
                m = e.solver.model()
                witnesses.append((vals, [(k, ev(m, v)) for k, v in e.obs]))

        try:
            with pysym.shimmed(extra=self.extra, omit=self.omit, overrides=self.overrides):
                ex.run(one)
        except pysym.Counterexample as c:
            r.counterexample = (c.label, c.values)
        except Raised as x:
            # only a violation when the unmodified code raises on the same concrete input
            if self.any_violates(r, ex, x.values, "raises"):
                return r
            raise EngineMismatch("symbolic run raised, the real code does not") from x
        except pysym.Inconclusive as x:
            if self.any_violates(r, ex, getattr(x, "samples", ()), "stuck"):
                return r
            raise
        r.stats = {k: getattr(ex.stats, k) for k in ex.stats.__dict__}
        r.used = sorted(getattr(ex, "used", ()))
        if r.counterexample is not None:
            label, values = r.counterexample
            r.violation = self.replay(values)
            if r.violation is None:
                raise EngineMismatch("counterexample to %r does not reproduce on the real code: %s"
                                     % (label, values))
            return r
        for vals, obs in witnesses:
            env = Concrete(vals)
            try:
                self.scenario(env)
            except Violated as v:
                raise EngineMismatch("proved symbolically, fails concretely: %s %s" % (v, vals))
            if env.observed != obs:
                raise EngineMismatch("observations differ: %s vs %s for %s" % (env.observed, obs, vals))
            r.validated += 1
        r.samples = [{"harness": self.name, "inputs": _short(v)} for v, _ in witnesses[:1]]
        if r.validated == 0:
            raise EngineMismatch("no reachability witness")
        return r

    def any_violates(self, r, ex, samples, label):
        for values in samples:
            why = self.replay(values)
            if why is not None:
                r.counterexample = (label, values)
                r.violation = why
                r.stats = {k: getattr(ex.stats, k) for k in ex.stats.__dict__}
                return True
        return False

    def replay(self, values):
        try:
            bounded(30, self.scenario, Concrete(values))
        except Violated as v:
            return str(v)
        except Hang as x:
            return str(x)
        except EngineMismatch:
            raise
        except Exception as x:
            if type(x).__name__ == "Thrown":    # compiled code signalled an error
                return "unexpected %s: %s" % (type(x).__name__, x)
            files = [f.filename for f in traceback.extract_tb(x.__traceback__)]
            if not any(f.startswith(REPO) or f == "<string>" for f in files):
                raise           # raised by the check itself
            return "unexpected %s: %s" % (type(x).__name__, x)
        return None


def _short(d, n=24):
    items = list(d.items())
    out = dict(items[:n])
    if len(items) > n:
        out["..."] = "%d more" % (len(items) - n)
    return out


class Result:
    def __init__(self, h):
        self.name = h.name
        self.counterexample = None
        self.violation = None
        self.validated = 0
        self.stats = {}
        self.used = []
        self.samples = []
        self.error = None
        self.wall = 0.0


_HARNESSES = None


_STOP = None            # shared: time after which workers give up
STUCK = float(os.environ.get("VERIF_STUCK", "60"))      # seconds without any progress


class Hang(BaseException):
    pass


def _tick(sig, frame):
    import pysym
    now = time.time()
    if _tick.until and now > _tick.until:
        raise Hang("no termination within %d s" % (now - _tick.since))
    if not _tick.until and pysym._State.progress and now - pysym._State.progress > STUCK:
        pysym._State.progress = now
        raise pysym.Inconclusive("no progress for %d s" % STUCK)


_tick.until, _tick.since = 0, 0


def bounded(seconds, f, *a):
    """f(*a); raises Hang when it takes longer"""
    old = _tick.until
    _tick.since = time.time()
    _tick.until = _tick.since + seconds
    try:
        return f(*a)
    finally:
        _tick.until = old


def _work(i):
    import pysym
    h = _HARNESSES[i]
    t = time.time()
    pysym._State.stop = lambda now: now > _STOP.value
    pysym._State.progress = t
    if pysym._State.stop(t):
        r = Result(h)
        r.error = "not run: out of time, or another harness already found a violation"
        return i, r
    signal.signal(signal.SIGALRM, _tick)
    signal.setitimer(signal.ITIMER_REAL, 2, 2)
    try:
        r = h.execute()
    except Exception:
        r = Result(h)
        r.error = traceback.format_exc()
    except BaseException as e:   # path-control exceptions leaking out are engine errors
        r = Result(h)
        r.error = "leaked %r\n%s" % (e, traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r.wall = time.time() - t
    if r.violation and not (h.known and h.known in known_findings(_PROP)):
        _STOP.value = min(_STOP.value, time.time() + 30)
    return i, r


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["id"]: f for f in json.load(open(p))["findings"]
            if f["property"] == prop and f.get("status") == "known"}


def compiled_functions(results):
    """flatdata functions of compiled code which were executed symbolically (template arguments dropped)"""
    import re
    import subprocess
    names = sorted({n.lstrip("@") for r in results.values() for n in r.used})
    go = {n[3:].replace("github.com/heremaps/flatdata/", "") for n in names if n.startswith("go:")}
    names = [n for n in names if not n.startswith("go:")]
    if not names:
        return go
    out = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout
    res = set()
    for n in out.split("\n"):
        while True:
            m = re.sub(r"<[^<>]*>", "", n)
            if m == n:
                break
            n = m
        n = n.split("(")[0].split(" ")[-1]
        n = re.sub(r"::h[0-9a-f]{16}$", "", n)
        if "flatdata" in n or "::" in n and not n.startswith(("std::", "boost::", "__gnu", "core::", "alloc::")):
            res.add(n)
    return res | go


def run_check(prop, harnesses, assumptions, outside, note=""):
    """Runs all harnesses; writes evidence; prints verdict; returns the exit code."""
    global _HARNESSES, _STOP, _PROP
    t0 = time.time()
    _HARNESSES, _PROP = harnesses, prop
    _STOP = multiprocessing.Value("d", t0 + float(os.environ.get("VERIF_LIMIT", "700" if TIER == "quick" else "20000")))
    only = os.environ.get("VERIF_ONLY")
    idx = [i for i, h in enumerate(harnesses) if not only or only in h.name]
    idx.sort(key=lambda i: -harnesses[i].weight)
    results = {}
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    if nproc == 1:
        for i in idx:
            results[i] = _work(i)[1]
    else:
        ctx = multiprocessing.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=nproc, mp_context=ctx) as pool:
            for i, r in pool.map(_work, idx, chunksize=1 if len(idx) < 400 else 4):
                results[i] = r
    known = known_findings(prop)
    violations, errors, kfs = [], [], []
    tot = {}
    samples = []
    validated = 0
    for i in idx:
        h, r = harnesses[i], results[i]
        if r.error:
            errors.append((h.name, r.error))
            continue
        for k, v in r.stats.items():
            tot[k] = tot.get(k, 0) + v
        validated += r.validated
        if len(samples) < 6:
            samples += r.samples
        if r.violation:
            if h.known and h.known in known:
                kfs.append((h.known, known[h.known]["what"]))
            else:
                violations.append((h, r))
    os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    seen = set()
    for k, what in kfs:
        if k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, what, k))
    paths = []
    for h, r in violations:
        p = os.path.join(OUT, prop, h.name.replace("/", "_").replace(" ", "_") + ".json")
        json.dump({"property": prop, "harness": h.name, "failed": r.violation,
                   "inputs": r.counterexample[1] if r.counterexample else {},
                   "replay_cmd": "python3 %s/checks/%s.py --replay %s" % (VERIF, prop, p)},
                  open(p, "w"), indent=1)
        paths.append((p, r.violation))
    funcs = sorted({f for h in harnesses for f in h.functions} | compiled_functions(results))
    bounds = sorted({h.bounds for h in harnesses})
    cov = {
        "states": int(tot.get("paths", 0)), "transitions": int(tot.get("branches", 0)),
        "traces_validated_against_impl": validated,
        "samples": samples or [{"harness": harnesses[i].name} for i in idx[:2]],
        "harnesses": len(idx), "obligations_discharged": int(tot.get("obligations", 0)),
        "solver_queries": int(tot.get("queries", 0)), "solver_seconds": round(tot.get("solver_s", 0), 2),
        "functions_encoded": funcs, "bounds": bounds, "outside_the_claim": outside,
        "legend": "states = symbolic execution paths explored to their end; transitions = symbolic "
                  "branch decisions; traces_validated = solver witnesses re-run on the unmodified "
                  "code with identical observations",
    }
    if tot.get("extra"):
        cov["extra"] = tot["extra"]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
          "level": "model_checking", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for p, why in paths[:20]:
        print("  violated: %s" % why)
        print("VIOLATION property=%s replay=%s" % (prop, p))
    for n, e in errors[:3]:
        print("ERROR in harness %s:\n%s" % (n, e[-1500:]), file=sys.stderr)
    print("%s: %d harnesses, %d paths, %d obligations, %d queries, %.1fs solver, %d traces replayed, "
          "%d violations, %d errors, %.1fs wall, peak %d MB" %
          (prop, len(idx), cov["states"], cov["obligations_discharged"], cov["solver_queries"],
           cov["solver_seconds"], validated, len(violations), len(errors), time.time() - t0,
           resource.getrusage(resource.RUSAGE_CHILDREN).ru_maxrss // 1024))
    if os.environ.get("VERIF_SLOW"):
        for i in sorted(idx, key=lambda i: -results[i].wall)[:8]:
            print("   %7.2fs %s paths=%s" % (results[i].wall, harnesses[i].name,
                                             results[i].stats.get("paths")))
    if violations:
        return 1
    if errors:
        return 3
    return 0


def main(prop, build, assumptions, outside):
    """Entry point of checks/<prop>.py; build() returns the harness list."""
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        for h in build():
            if h.name == d["harness"]:
                v = h.replay(d["inputs"])
                print("replay: %s" % (v or "holds"))
                sys.exit(1 if v else 0)
        sys.exit(2)
    sys.exit(run_check(prop, build(), assumptions, outside))
