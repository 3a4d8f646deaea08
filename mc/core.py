"""Bounded-exhaustive exploration framework.

A check module (mc/checks/cXX.py) defines
    ID       the property id
    RULE     how cases are made
    BOUNDS   dict tier -> text
    jobs(tier) -> list of (function_name, args) ; the functions take (ctx, *args)

Every job enumerates a finite space completely.  Inside a job every explored
case is a `with ctx.case(name, **inputs):` block that runs the real code from
/repo and compares it with the reference model.  An exception raised by the
real code on a legal input, a non-terminating call, or any disagreement with
the model is a violation; all are written as replayable artefacts.
"""
import concurrent.futures as cf
import contextlib
import fnmatch
import hashlib
import importlib
import json
import logging
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_TIMEOUT = 240
MAX_VIOL_PER_JOB = 3


class Abort(Exception):
    pass


class Mismatch(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CaseTimeout()


def show(x, depth=0):
    """JSON-able rendering of a case input."""
    import numpy as np

    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {"shape": list(x.shape), "dtype": str(x.dtype),
                    "head": x.ravel()[:20].tolist(),
                    "sha": hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()}
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): show(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [show(v, depth + 1) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        if isinstance(x, float) and not math.isfinite(x):
            return repr(x)
        return x
    return repr(x)[:300]


def digest(obj):
    h = hashlib.blake2b(digest_size=8)

    def feed(o):
        import numpy as np

        if isinstance(o, np.ndarray):
            h.update(str((o.dtype, o.shape)).encode())
            h.update(np.ascontiguousarray(o).tobytes())
        elif isinstance(o, dict):
            for k in o:
                h.update(repr(k).encode())
                feed(o[k])
        elif isinstance(o, (list, tuple)):
            h.update(b"(")
            for v in o:
                feed(v)
            h.update(b")")
        else:
            h.update(repr(o).encode())

    feed(obj)
    return h.digest()


class Ctx:
    def __init__(self, prop, job, args, tier, seed):
        self.prop, self.job, self.args, self.tier, self.seed = prop, job, args, tier, seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.case_no = 0
        self._cur = None
        self.caps = []

    # -- counting -------------------------------------------------------
    def state(self, key):
        """register a visited state; True if it is new"""
        d = digest(key)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        """n real-code transitions executed"""
        self.transitions += n

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(digest(key))

    # -- cases ----------------------------------------------------------
    @contextlib.contextmanager
    def case(self, name, /, _state=True, **inputs):
        self.case_no += 1
        self._cur = (name, inputs)
        if _state:
            self.state((name, inputs))
        if len(self.samples) < 2:
            self.samples.append({"case": name, "inputs": show(inputs)})
        signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
        try:
            yield self
            self.traces += 1
        except Abort:
            raise
        except Mismatch as e:
            self._violate(str(e))
        except CaseTimeout:
            self._violate("did not terminate within %d s" % CASE_TIMEOUT)
        except Exception as e:
            self._violate("unexpected %s: %s" % (type(e).__name__, str(e)[:400]),
                          tb=traceback.format_exc()[-2500:])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def _violate(self, msg, tb=None):
        name, inputs = self._cur
        self.violations.append({
            "property": self.prop, "job": self.job, "args": show(self.args),
            "case_no": self.case_no, "case": name, "inputs": show(inputs),
            "message": msg, "traceback": tb})
        if len([v for v in self.violations if not known(v)]) >= MAX_VIOL_PER_JOB:
            raise Abort()

    # -- assertions -----------------------------------------------------
    def fail(self, msg):
        raise Mismatch(msg)

    def true(self, cond, msg):
        if not cond:
            raise Mismatch(msg)

    def close(self, got, exp, what, rtol=1e-9, atol=1e-11):
        import numpy as np

        g = np.asarray(got, dtype=float) if not np.isscalar(got) else np.asarray(float(got))
        e = np.asarray(exp, dtype=float)
        if g.shape != e.shape:
            raise Mismatch("%s: shape %s, expected %s" % (what, g.shape, e.shape))
        ok = np.isclose(g, e, rtol=rtol, atol=atol, equal_nan=True)
        if not ok.all():
            raise Mismatch("%s: got %s, expected %s" % (what, _short(g), _short(e)))

    def same(self, got, exp, what):
        import numpy as np

        if isinstance(exp, np.ndarray) or isinstance(got, np.ndarray):
            g, e = np.asarray(got), np.asarray(exp)
            if g.shape != e.shape or not np.array_equal(g, e):
                raise Mismatch("%s: got %s, expected %s" % (what, _short(g), _short(e)))
        elif not (got == exp):
            raise Mismatch("%s: got %r, expected %r" % (what, got, exp))

    def rejects(self, fn, what, exc=(ValueError, TypeError)):
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Mismatch("%s: rejected with %s(%s) instead of a documented ValueError/TypeError"
                           % (what, type(e).__name__, str(e)[:200]))
        raise Mismatch("%s: accepted (returned %s)" % (what, _short(r)))

    def result(self):
        return dict(job=self.job, args=show(self.args), states=self.states, transitions=self.transitions,
                    traces=self.traces, cases=self.case_no, outcomes=len(self.outcomes), samples=self.samples,
                    violations=self.violations, caps=self.caps)


def _short(x):
    import numpy as np

    s = np.array2string(np.asarray(x), threshold=24, precision=12) if isinstance(x, np.ndarray) else repr(x)
    return s[:400].replace("\n", " ")


# -- immutability guard --------------------------------------------------
class Frozen:
    """snapshot of (nested) arguments; .check(ctx) fails when they changed"""

    def __init__(self, *objs):
        self.objs = objs
        self.before = self._snap(objs)

    def _snap(self, o):
        import numpy as np
        import pandas as pd

        if isinstance(o, np.ndarray):
            return ("a", o.dtype.str, o.shape, o.tobytes())
        if isinstance(o, dict):
            return ("d", tuple((k, self._snap(v)) for k, v in o.items()))
        if isinstance(o, (list, tuple)):
            return ("l", tuple(self._snap(v) for v in o))
        if isinstance(o, pd.DataFrame):
            return ("p", tuple(o.columns), o.to_csv())
        return ("r", repr(o) if isinstance(o, (int, float, str, bool, type(None))) else id(o))

    def check(self, ctx, what="arguments"):
        if self._snap(self.objs) != self.before:
            raise Mismatch("%s were modified by the call" % what)


# -- known findings ------------------------------------------------------
_KNOWN = None


def known_entries():
    global _KNOWN
    if _KNOWN is None:
        _KNOWN = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith("#"):
                    e = json.loads(line)
                    if e.get("status") == "known":
                        _KNOWN.append(e)
    return _KNOWN


def known(v):
    for e in known_entries():
        if e["property"] == v["property"] and fnmatch.fnmatchcase(v["case"], e["case"]) \
                and e.get("message", "") in v["message"]:
            return e
    return None


# -- running -------------------------------------------------------------
def _run_job(spec):
    mod_name, prop, fn, args, tier, seed = spec
    warnings.filterwarnings("ignore")
    signal.signal(signal.SIGALRM, _on_alarm)
    import numpy as np

    np.seterr(all="ignore")
    ctx = Ctx(prop, fn, args, tier, seed)
    t0 = time.time()
    try:
        mod = importlib.import_module(mod_name)
        getattr(mod, fn)(ctx, *args)
    except Abort:
        pass
    except BaseException as e:
        # outside a case block: raised by building the system under test
        ctx._cur = ctx._cur or ("<setup>", {})
        try:
            ctx._violate("unexpected %s outside a case: %s" % (type(e).__name__, str(e)[:400]),
                         tb=traceback.format_exc()[-2500:])
        except Abort:
            pass
    r = ctx.result()
    r["wall"] = time.time() - t0
    return r


def setup_env():
    scratch = os.environ.get("VERIF_SCRATCH") or os.path.join("/tmp", "verif-mpl-%d" % os.getuid())
    os.makedirs(scratch, exist_ok=True)
    os.environ.setdefault("MPLCONFIGDIR", scratch)
    os.environ["MPLBACKEND"] = "Agg"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
        os.environ[k] = "1"
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def run_check(prop, tier, seed, workers=8, only=None, verbose=False):
    setup_env()
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    t0 = time.time()
    mod_name = "mc.checks.%s" % prop.lower()
    mod = importlib.import_module(mod_name)
    try:
        import obp  # noqa: F401
        loc = os.path.dirname(os.path.abspath(obp.__file__))
        if loc != os.path.join(os.path.realpath(REPO), "obp") and loc != os.path.join(REPO, "obp"):
            print("ERROR: obp imported from %s" % loc)
            return 3
        if hasattr(mod, "preload"):
            mod.preload()
        jobs = mod.jobs(tier)
    except Exception:
        jobs = None
        viol = [{"property": prop, "job": "<import>", "args": [], "case_no": 0, "case": "<import>", "inputs": {},
                 "message": "importing the package failed", "traceback": traceback.format_exc()[-2500:]}]
    results = []
    if jobs is not None:
        if only:
            jobs = [j for j in jobs if only in j[0] or only in repr(j)]
        specs = [(mod_name, prop, fn, args, tier, seed) for fn, args in jobs]
        workers = min(workers, len(specs)) or 1
        if workers == 1:
            results = [_run_job(s) for s in specs]
        else:
            with cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as pool:
                futs = {pool.submit(_run_job, s): s for s in specs}
                for fu in cf.as_completed(futs):
                    try:
                        r = fu.result()
                    except Exception as e:  # the process died under the real code
                        s = futs[fu]
                        c = Ctx(prop, s[2], s[3], tier, seed)
                        c._cur = ("<worker>", {})
                        c._violate("worker process ended abnormally: %s %s" % (type(e).__name__, e))
                        r = dict(c.result(), wall=0.0)
                    results.append(r)
                    if verbose:
                        print("  job %s%s states=%d trans=%d traces=%d outcomes=%d viol=%d %.1fs" % (
                            r["job"], r["args"], len(r["states"]), r["transitions"], r["traces"], r["outcomes"],
                            len(r["violations"]), r["wall"]), flush=True)
        viol = [v for r in results for v in r["violations"]]
    states = set()
    for r in results:
        states |= {(r["job"], s) for s in r["states"]}
    knowns, new = [], []
    for v in viol:
        e = known(v)
        (knowns if e else new).append((v, e))
    samples = []
    for r in sorted(results, key=lambda r: (r["job"], json.dumps(r["args"]))):
        if len(samples) < 6:
            for s in r["samples"][:1]:
                samples.append(dict(job=r["job"], **s))
    cov = dict(
        states=len(states), transitions=sum(r["transitions"] for r in results),
        traces_validated_against_impl=sum(r["traces"] for r in results),
        distinct_outcomes=sum(r["outcomes"] for r in results),
        jobs=len(results), rule=mod.RULE, bounds=mod.BOUNDS.get(tier, mod.BOUNDS.get("quick")),
        exhaustive=not any(r["caps"] for r in results) and not new,
        caps=[c for r in results for c in r["caps"]], samples=samples)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"), coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s tier=%s states=%d transitions=%d traces=%d outcomes=%d jobs=%d wall=%.1fs" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["distinct_outcomes"], cov["jobs"], ev["wall_s"]))
    seen = set()
    for v, e in knowns:
        if e["id"] not in seen:
            seen.add(e["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    if new:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (v, _) in enumerate(sorted(new, key=lambda t: len(json.dumps(t[0]["inputs"])))[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, i))
            v = dict(v, tier=tier, seed=seed,
                     how_to_replay="cd /verif && bash run.sh %s --replay %s" % (prop, path))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s %s: %s" % (v["job"], v["case"], v["message"][:300]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if results and cov["traces_validated_against_impl"] == 0:
        print("ERROR: vacuous run")
        return 3
    return 0


def replay(prop, path):
    """re-run the job that produced the artefact, twice, and report the same case"""
    setup_env()
    v = json.load(open(path))
    mod_name = "mc.checks.%s" % prop.lower()
    mod = importlib.import_module(mod_name)
    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")
    if hasattr(mod, "preload"):
        mod.preload()
    outs = []
    for _ in range(2):
        found = None
        for fn, args in mod.jobs(v["tier"]):
            if fn == v["job"] and show(args) == v["args"]:
                r = _run_job((mod_name, prop, fn, args, v["tier"], v["seed"]))
                found = [(x["case_no"], x["case"], x["message"]) for x in r["violations"]]
        outs.append(found)
    print(json.dumps(v["inputs"], indent=1))
    print("first run :", outs[0])
    print("second run:", outs[1])
    return 1 if outs[0] else 0


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    a = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        return replay(a.prop, a.replay)
    return run_check(a.prop, tier, seed, a.workers, a.only, a.v)


if __name__ == "__main__":
    from mc import core as _core  # one module identity

    sys.exit(_core.main(sys.argv[1:]))
