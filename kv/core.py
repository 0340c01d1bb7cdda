"""Monitoring core: verdicts, counters, library-call boundary, shards, evidence.

A *case* is one monitored execution: (property, kind, seed).  It is fully
determined by those three, so a violation's replay file only needs them.

Verdict per run: violated (exit 1), held on everything observed (exit 0) or
inconclusive (exit 2: a monitor was never reached, a worker died, a harness
fault).  Nothing folds inconclusive into the other two.
"""

import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

REPO = os.path.realpath(os.environ.get("KV_REPO", "/repo"))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CaseAbort(Exception):
    """The current case has produced its verdict; go on with the next one."""


class Inconclusive(Exception):
    """The harness could not decide this case."""


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.realpath(fr.filename).startswith(REPO + os.sep):
            return True
    return False


def jsonable(x, limit=80):
    if isinstance(x, np.ma.MaskedArray):
        return {"data": jsonable(x.data), "mask": jsonable(np.ma.getmaskarray(x))}
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return "<object array %s>" % (x.shape,)
        if x.size > limit:
            return {"shape": list(x.shape), "head": jsonable(x.ravel()[:12])}
        return json.loads(json.dumps(x.tolist(), default=str))
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    """Collects what the monitors of one shard saw."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.counts = Counter()
        self.maxima = {}
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.case = None
        self.worst = (-1.0, None, None)

    # -- observation ----------------------------------------------------
    def saw(self, name, n=1):
        self.counts[name] += n

    def sig(self, *parts):
        """Record a non-trivial, distinct situation reached by this run."""
        k = "|".join(str(p) for p in parts)
        if len(self.samples) < 3 and k not in self.distinct:
            self.samples.append({"situation": k, "case": dict(self.case or {})})
        self.distinct.add(k)

    def sample(self, obj, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(obj))

    def peak(self, name, value):
        value = float(value)
        if value > self.maxima.get(name, -1.0):
            self.maxima[name] = value

    # -- verdicts -------------------------------------------------------
    def violation(self, mech, what, **detail):
        self.violations.append(
            {
                "mech": mech,
                "what": what,
                "case": self.case,
                "detail": jsonable(detail),
            }
        )
        raise CaseAbort()

    def check(self, cond, mech, what, **detail):
        self.counts["checks"] += 1
        self.counts["check:" + mech.split("/")[0]] += 1
        if not cond:
            self.violation(mech, what, **detail)

    def shape(self, arr, shape, mech, what):
        a = arr
        ok = isinstance(a, np.ndarray) and a.shape == tuple(shape)
        self.check(
            ok, mech + "/shape", "%s: expected array of shape %s, got %s" % (
                what, tuple(shape), getattr(a, "shape", type(a).__name__)))
        if a.dtype == object or not np.issubdtype(a.dtype, np.number):
            self.violation(mech + "/dtype", "%s: dtype %s" % (what, a.dtype))
        return np.asarray(np.ma.getdata(a), dtype=float)

    def close(self, got, ref, scale, mech, what, tol=1e-6, **detail):
        """|got - ref| <= tol * scale elementwise; NaN/inf never pass."""
        self.counts["checks"] += 1
        self.counts["check:" + mech.split("/")[0]] += 1
        got = np.asarray(np.ma.getdata(got))
        ref = np.asarray(ref, dtype=float)
        if got.shape != ref.shape:
            self.violation(mech + "/shape", "%s: shape %s, expected %s" % (
                what, got.shape, ref.shape), **detail)
        try:
            got = got.astype(float)
        except (TypeError, ValueError):
            self.violation(mech + "/dtype", "%s: not numeric" % what, **detail)
        if got.size == 0:
            return
        err = np.abs(got - ref)
        lim = tol * np.broadcast_to(np.asarray(scale, dtype=float), err.shape)
        bad = ~(err <= lim)
        if bad.any():
            i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err, np.inf))),
                                 err.shape) if err.shape else ()
            self.violation(
                mech,
                "%s: observed %r, required %r at index %s (difference %.3g, allowed %.3g)"
                % (what, float(got[i]), float(ref[i]), tuple(int(k) for k in i),
                   float(err[i]), float(lim[i])),
                observed=got, required=ref, **detail)
        with np.errstate(all="ignore"):
            pos = lim > 0
            if pos.any():
                w = float(np.max(err[pos] / lim[pos]))
                if w > self.maxima.get("worst_error_over_tolerance", -1.0):
                    self.peak("worst_error_over_tolerance", w)
                    self.worst = (w, mech, dict(self.case or {}))

    def call(self, mech, what, fn, *args, **kw):
        """Cross the library boundary; an unexpected exception is a violation."""
        self.counts["library_calls"] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*args, **kw)
        except (MemoryError, KeyboardInterrupt, CaseAbort, Inconclusive):
            raise
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc()
            self.violation(mech + "/raised", "%s raised %s: %s" % (
                what, type(e).__name__, str(e)[:200]), traceback=tb[-1500:])

    def raises(self, exc, mech, what, fn, *args, **kw):
        """The call must raise `exc` (and must not return)."""
        self.counts["library_calls"] += 1
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                r = fn(*args, **kw)
        except exc:
            self.counts["checks"] += 1
            return
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: BLE001
            self.violation(mech + "/wrong-exception", "%s raised %s instead of %s: %s" % (
                what, type(e).__name__, exc, str(e)[:200]))
        self.violation(mech + "/no-exception", "%s returned %s instead of raising" % (
            what, type(r).__name__))


def case_rng(prop, kind, seed):
    h = np.frombuffer(("%s/%s" % (prop, kind)).encode(), dtype=np.uint8)
    return np.random.RandomState(
        np.concatenate([h.astype(np.uint32), np.array([seed & 0xFFFFFFFF, 7], np.uint32)]))


def run_case(ctx, module, kind, seed):
    ctx.case = {"property": ctx.prop, "kind": kind, "seed": int(seed), "tier": ctx.tier}
    ctx.counts["cases"] += 1
    ctx.counts["cases:" + kind] += 1
    rng = case_rng(ctx.prop, kind, seed)
    try:
        module.KINDS[kind](ctx, rng)
    except CaseAbort:
        pass
    except (MemoryError, KeyboardInterrupt):
        raise
    except Inconclusive as e:
        ctx.counts["inconclusive_cases"] += 1
        ctx.sample({"inconclusive": str(e)})
    except Exception as e:  # noqa: BLE001
        if _in_repo(sys.exc_info()[2]):
            try:
                ctx.violation("raised", "library code raised %s: %s" % (
                    type(e).__name__, str(e)[:200]),
                    traceback=traceback.format_exc()[-1500:])
            except CaseAbort:
                pass
        elif isinstance(e, np.linalg.LinAlgError):
            # the reference itself cannot be computed for this (numerically singular) case
            ctx.counts["oracle_degenerate_cases"] += 1
        else:
            raise


def _worker(args):
    prop, tier, jobs, modname, deadline = args
    import importlib

    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    module = importlib.import_module(modname)
    ctx = Ctx(prop, tier)
    err = None
    done = 0
    times = Counter()
    try:
        for kind, seed in jobs:
            if time.time() > deadline:
                ctx.counts["skipped_for_time"] += len(jobs) - done
                break
            if len(ctx.violations) >= 4:
                break
            t0 = time.time()
            run_case(ctx, module, kind, seed)
            times[kind] += time.time() - t0
            done += 1
    except BaseException:  # noqa: BLE001
        err = "case %s: %s" % (ctx.case, traceback.format_exc())
    return {
        "counts": dict(ctx.counts), "distinct": sorted(ctx.distinct),
        "samples": ctx.samples, "violations": ctx.violations,
        "maxima": ctx.maxima, "worst": ctx.worst, "error": err, "times": dict(times),
    }


def load_known():
    """(property, mechanism) pairs of open findings: 'finding: property=.. mech=.. text'."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                p = parts[1].split("=", 1)[1]
                m = parts[2].split("=", 1)[1]
                out[(p, m)] = parts[3].strip() if len(parts) > 3 else m
    return out


def check_import():
    import pykalman

    f = os.path.realpath(pykalman.__file__)
    if not f.startswith(REPO + os.sep):
        raise SystemExit("pykalman imported from %s, not from %s" % (f, REPO))


def run_property(prop, module, tier, seed, nproc=None, only=None):
    t0 = time.time()
    plan = module.PLAN[tier]
    jobs = []
    for kind, n in plan.items():
        if only and kind not in only:
            continue
        base = 1_000_003 * seed
        jobs += [(kind, (base + 7919 * i) & 0xFFFFFFFF) for i in range(n)]
    nproc = nproc or min(8, os.cpu_count() or 1)
    nshard = max(1, min(len(jobs), nproc * 4))
    shards = [jobs[i::nshard] for i in range(nshard)]
    budget = 600 if tier == "quick" else 3000
    deadline = t0 + budget
    args = [(prop, tier, s, module.__name__, deadline) for s in shards]
    if nproc == 1:
        outs = [_worker(a) for a in args]
    else:
        with mp.get_context("fork").Pool(nproc, maxtasksperchild=8) as pool:
            res = [pool.apply_async(_worker, (a,)) for a in args]
            outs = []
            for r in res:
                try:
                    outs.append(r.get(timeout=max(5.0, deadline + 120 - time.time())))
                except mp.TimeoutError:
                    outs.append({"counts": {}, "distinct": [], "samples": [], "times": {},
                                 "violations": [], "maxima": {}, "error": "worker timeout"})
                    pool.terminate()
                    break
    counts, distinct, samples, viols, maxima, errors = Counter(), set(), [], [], {}, []
    times = Counter()
    for o in outs:
        counts.update(o["counts"])
        distinct.update(o["distinct"])
        times.update(o["times"])
        samples += o["samples"][:2]
        viols += o["violations"]
        for k, v in o["maxima"].items():
            maxima[k] = max(v, maxima.get(k, -1))
        if o["error"]:
            errors.append(o["error"])
    known = load_known()
    new, kf = [], []
    for v in viols:
        (kf if (prop, v["mech"]) in known else new).append(v)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": int(counts["cases"]),
            "distinct_nontrivial": len(distinct),
            "rule": module.RULE,
            "samples": samples[:6],
            "monitor_counts": {k: int(v) for k, v in sorted(counts.items())},
            "maxima": maxima,
            "worst_case": max((o["worst"] for o in outs if o.get("worst")),
                              key=lambda w: w[0], default=None),
            "distinct_examples": sorted(distinct)[:12],
            "seconds_per_kind": {k: round(v, 2) for k, v in times.items()},
        },
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(evidence, fh, indent=1, default=str)
    for (p, m) in sorted({(prop, v["mech"]) for v in kf}):
        print("KNOWN-FINDING: property=%s %s" % (p, known[(p, m)]))
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in new:
            if v["mech"] in seen or len(seen) >= 6:
                continue
            seen.add(v["mech"])
            path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
            with open(path, "w") as fh:
                json.dump(v, fh, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  [%s] %s (case %s seed %s)" % (
                v["mech"], v["what"], v["case"]["kind"], v["case"]["seed"]))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s harness error:\n%s" % (prop, errors[0]))
        return 2
    if counts.get("oracle_degenerate_cases", 0) > 0.05 * counts["cases"]:
        print("INCONCLUSIVE property=%s the reference was unavailable in %d cases" % (
            prop, counts["oracle_degenerate_cases"]))
        return 2
    missing = [k for k in module.REQUIRED if not counts.get(k)] if not only else []
    if missing or counts.get("inconclusive_cases"):
        print("INCONCLUSIVE property=%s monitors not reached: %s; skipped %d; undecided %d" % (
            prop, missing, counts.get("skipped_for_time", 0),
            counts.get("inconclusive_cases", 0)))
        return 2
    print("HELD property=%s cases=%d checks=%d distinct=%d worst=%.2g of tolerance %.1fs%s" % (
        prop, counts["cases"], counts["checks"], len(distinct),
        maxima.get("worst_error_over_tolerance", 0), time.time() - t0,
        " (cut short: %d cases not run)" % counts["skipped_for_time"]
        if counts.get("skipped_for_time") else ""))
    return 0
