"""Shared driver for every check.

A check module (checks/<id>.py) exports

    PROPERTY   the property id
    RULE       how cases are made and what makes one non-trivial
    TARGETS    a list of Target: a Hypothesis strategy producing plain Python
               literals, and a function run(value, ctx) that executes the case
               against the real code and raises on a violated oracle
    ASSUMPTIONS (optional) list of strings

The runner forks workers, gives each its share of the cases of every target
with a seed that is a pure function of VERIF_SEED, and lets Hypothesis search
and shrink.  A shrunk failure is written as a replay file holding only the
literal value; `run.py ID --replay FILE` re-executes it without Hypothesis.

Exit codes: 0 held, 1 violated (with the VIOLATION line), 2 harness error.
"""
import ast
import hashlib
import importlib
import json
import logging
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

CASE_CPU_LIMIT = 60.0        # CPU seconds; ordinary cases take milliseconds
WORKER_MEM = 5 << 30


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class Hang(BaseException):
    """A case used CASE_CPU_LIMIT seconds of CPU (ordinary: milliseconds)."""


class HarnessError(BaseException):
    """The machinery itself cannot work; never reported as a violation."""


class Target(object):
    def __init__(self, name, strategy, run, quick, thorough=None, nontrivial=""):
        self.name = name
        self.strategy = strategy        # a strategy, or callable(tier) -> strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.nontrivial = nontrivial


class Enumerated(object):
    """A finite, fully enumerated (or deterministically listed) set of cases."""
    def __init__(self, name, values, run, nontrivial=""):
        self.name = name
        self.values = values            # callable(tier, seed) -> iterable of literals
        self.run = run
        self.nontrivial = nontrivial


class Ctx(object):
    def __init__(self, scratch, tier="quick"):
        self.scratch = scratch
        self.tier = tier
        self.reset_case()
        self.events = {}
        self._n = 0

    def reset_case(self):
        self.is_nontrivial = False
        self.case_events = set()

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def event(self, label):
        self.case_events.add(label)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass


def check(cond, *msg):
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


def check_eq(got, want, *what):
    if not (got == want):
        raise Violation("%s: got %s, want %s" % (
            " ".join(str(m) for m in what), short(got), short(want)))


def short(v, n=300):
    r = repr(v)
    return r if len(r) <= n else r[:n - 20] + "...(%d chars)" % len(r)


def raises(excs, fn, *args, **kw):
    """True when fn raises one of excs; other exceptions propagate."""
    try:
        fn(*args, **kw)
    except excs:
        return True
    return False


def _arm(seconds):
    signal.setitimer(signal.ITIMER_PROF, seconds, 5.0 if seconds else 0)


def _on_alarm(signum, frame):
    raise Hang("case exceeded %.0f s of CPU" % CASE_CPU_LIMIT)


def execute(target, value, ctx):
    """Run one case; exceptions propagate."""
    ctx.reset_case()
    _arm(CASE_CPU_LIMIT)
    try:
        target.run(value, ctx)
    finally:
        _arm(0)
        ctx.clean()


def describe(exc):
    return "".join(traceback.format_exception_only(type(exc), exc)).strip()


def trace_of(exc):
    return "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-6000:]


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = 0
        self.seen = set()
        self.samples = []
        self.events = {}

    def note(self, target, value, ctx):
        self.evaluations += 1
        for e in ctx.case_events:
            k = target.name + "/" + e
            self.events[k] = self.events.get(k, 0) + 1
        if ctx.is_nontrivial:
            self.nontrivial += 1
            r = repr(value)
            h = hashlib.blake2b((target.name + r).encode("utf-8", "backslashreplace"), digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                # keep a few small-ish, later (so less trivial) samples
                if len(self.samples) < 3 and (len(r) > 40 or self.nontrivial > 60):
                    self.samples.append((target.name, r[:600]))


def run_target(target, ctx, n, seed, stats):
    """Search one target. Returns None or (value, message, trace)."""
    import hypothesis
    from hypothesis import settings, given, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 60

    state = {"fail": None, "current": None}

    def body(value):
        state["current"] = value
        try:
            execute(target, value, ctx)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Exception as e:
            state["fail"] = (value, describe(e), trace_of(e))
            raise
        stats.note(target, value, ctx)

    strategy = target.strategy
    if callable(strategy) and not hasattr(strategy, "example"):
        strategy = strategy(ctx.tier)
    test = given(strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.shrink),
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except Hang as e:
        return (state["current"], "Hang: %s" % e, trace_of(e))
    except hypothesis.errors.Unsatisfiable:
        raise HarnessError("generator of %s produces nothing" % target.name)
    except Exception as e:
        if state["fail"] is None:
            raise HarnessError("Hypothesis failed outside a case in %s: %s" % (target.name, trace_of(e)))
        return state["fail"]
    return None


def run_enumerated(target, ctx, worker, workers, seed, stats):
    for i, value in enumerate(target.values(ctx.tier, seed)):
        if i % workers != worker:
            continue
        try:
            execute(target, value, ctx)
        except Hang as e:
            return (value, "Hang: %s" % e, trace_of(e))
        except Exception as e:
            return (value, describe(e), trace_of(e))
        stats.note(target, value, ctx)
    return None


def worker_main(mod, worker, workers, tier, seed, scratch, outfile):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (WORKER_MEM, WORKER_MEM))
    except (ValueError, OSError):
        pass
    signal.signal(signal.SIGPROF, _on_alarm)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    logging.disable(logging.CRITICAL)
    out = {"fail": None, "error": None}
    stats = Stats()
    timing = {}
    try:
        only = os.environ.get("VERIF_ONLY")
        for t in mod.TARGETS:
            if only and t.name not in only.split(","):
                continue
            t0 = time.time()
            d = os.path.join(scratch, "w%d" % worker)
            os.makedirs(d, exist_ok=True)
            ctx = Ctx(d, tier)
            if isinstance(t, Enumerated):
                r = run_enumerated(t, ctx, worker, workers, seed, stats)
            else:
                total = t.quick if tier == "quick" else t.thorough
                n = total // workers + (1 if worker < total % workers else 0)
                scale = float(os.environ.get("VERIF_SCALE", "1"))
                n = int(n * scale) if scale != 1 else n
                if n <= 0:
                    continue
                tseed = int(hashlib.sha256(("%d/%d/%s" % (seed, worker, t.name)).encode()).hexdigest()[:15], 16)
                r = run_target(t, ctx, n, tseed, stats)
            timing[t.name] = time.time() - t0
            if r is not None:
                out["fail"] = (t.name,) + r
                break
    except BaseException as e:
        out["error"] = trace_of(e)
    out["evaluations"] = stats.evaluations
    out["nontrivial"] = stats.nontrivial
    out["seen"] = stats.seen
    out["samples"] = stats.samples
    out["events"] = stats.events
    out["timing"] = timing
    tmp = outfile + ".tmp"
    with open(tmp, "wb") as f:
        pickle.dump(out, f)
    os.rename(tmp, outfile)


def known_findings(prop):
    res = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get("property") == prop:
                    res.append(d)
    return res


def write_replay(prop, tname, value, msg, trace):
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, tname))
    with open(path, "w") as f:
        json.dump({"property": prop, "target": tname, "value": repr(value),
                   "message": msg, "trace": trace}, f, indent=1)
    return path


def load_module(prop):
    sys.path.insert(0, SRC)
    sys.path.insert(0, ROOT)
    sys.dont_write_bytecode = True
    import aaf2
    if not os.path.abspath(aaf2.__file__).startswith(os.path.abspath(SRC)):
        raise HarnessError("aaf2 imported from %s, not %s" % (aaf2.__file__, SRC))
    return importlib.import_module("checks." + prop.lower())


def find_target(mod, name):
    for t in mod.TARGETS:
        if t.name == name:
            return t
    raise HarnessError("no target %s" % name)


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    t = find_target(mod, d["target"])
    value = ast.literal_eval(d["value"])
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    signal.signal(signal.SIGPROF, _on_alarm)
    logging.disable(logging.CRITICAL)
    try:
        execute(t, value, Ctx(scratch))
    except (Exception, Hang) as e:
        print(trace_of(e))
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("replay passes: %s" % path)
    return 0


def check_findings(mod):
    """Re-run each listed finding. Returns lines to print, and failures."""
    lines = []
    for d in known_findings(mod.PROPERTY):
        if d.get("status") != "known":
            continue
        t = find_target(mod, d["target"])
        scratch = tempfile.mkdtemp(prefix="verif-known-")
        try:
            execute(t, ast.literal_eval(d["value"]), Ctx(scratch))
        except (Exception, Hang) as e:
            if d["signature"] in describe(e):
                lines.append("KNOWN-FINDING: property=%s %s" % (mod.PROPERTY, d["what"]))
            else:
                return lines, (t.name, ast.literal_eval(d["value"]), describe(e), trace_of(e))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return lines, None


def main(argv=None):
    import argparse
    import multiprocessing
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        mod = load_module(a.property)
    except BaseException:
        traceback.print_exc()
        print("ERROR: cannot load check %s" % a.property)
        return 2
    if a.replay:
        return replay(mod, a.replay)

    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.property)
    ctxm = multiprocessing.get_context("fork")
    procs = []
    results = []
    fail = None
    error = None
    try:
        # known findings first, in a child so that nothing leaks into the workers
        for w in range(a.workers):
            out = os.path.join(scratch, "out%d" % w)
            p = ctxm.Process(target=worker_main, args=(mod, w, a.workers, tier, a.seed, scratch, out))
            p.start()
            procs.append((p, out))
        pending = list(procs)
        while pending and fail is None:
            still = []
            for p, out in pending:
                p.join(0.05)
                if p.is_alive():
                    still.append((p, out))
                    continue
                if not os.path.exists(out):
                    error = error or "worker ended without a result (exit %s)" % p.exitcode
                    continue
                with open(out, "rb") as f:
                    r = pickle.load(f)
                results.append(r)
                if r["fail"] is not None:
                    fail = r["fail"]
                if r["error"]:
                    error = error or r["error"]
            pending = still
    finally:
        for p, out in procs:
            if p.is_alive():
                p.terminate()
        for p, out in procs:
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join(5)
        shutil.rmtree(scratch, ignore_errors=True)

    signal.signal(signal.SIGPROF, _on_alarm)
    logging.disable(logging.CRITICAL)
    lines = []
    if fail is None and error is None:
        lines, f2 = check_findings(mod)
        fail = f2

    seen = set()
    samples = []
    events = {}
    evaluations = 0
    timing = {}
    for r in results:
        seen |= r["seen"]
        evaluations += r["evaluations"]
        for s in r["samples"]:
            if sum(1 for x in samples if x[0] == s[0]) < 2 and len(samples) < 12:
                samples.append(s)
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["timing"].items():
            timing[k] = round(max(timing.get(k, 0), v), 2)
    evidence = {
        "property": mod.PROPERTY, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(seen),
            "rule": mod.RULE,
            "samples": [{"target": t, "case": s} for t, s in samples],
            "class_counts": dict(sorted(events.items())),
            "targets": [t.name for t in mod.TARGETS],
            "target_wall_s": timing,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if fail else 0,
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", mod.PROPERTY + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for line in lines:
        print(line)
    if fail:
        tname, value, msg, trace = fail
        path = write_replay(mod.PROPERTY, tname, value, msg, trace)
        print("target %s failed: %s" % (tname, msg[:2000]))
        print("input: %s" % short(value, 2000))
        if os.environ.get("VERIF_DEBUG"):
            print(trace)
        print("VIOLATION property=%s replay=%s" % (mod.PROPERTY, path))
        return 1
    if error:
        print("ERROR: %s" % error)
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct-nontrivial=%d wall=%.1fs" % (
        mod.PROPERTY, tier, a.seed, evaluations, len(seen), time.time() - t0))
    return 0
