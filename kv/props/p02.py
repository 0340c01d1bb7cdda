"""P02: smoothing returns the exact conditional distribution given everything."""

import numpy as np

from .. import core, lincommon as lc, models
from . import p01

RULE = p01.RULE


def dense(ctx, rng, cls=None, **opt):
    cls, M, Z, obs, mk = lc.make_case(rng, cls, degen=0.15, **opt)
    degen = "degenerate(" in M.tags
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.25 and not degen else ((), {})
    ref = lc.Ref(M, Z, obs)
    if max(ref.Sc, ref.cond_P) > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    if degen:
        ctx.saw("degenerate noise")
    if ref.rank:
        ctx.saw("skipped:rank")  # kind `singular`
        return
    kf = ctx.call("construct", cls + " constructor", M.make, cls, omit, **extra)
    got = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
    ctx.saw("smooth:" + cls)
    ctx.saw("steps", M.T)
    ctx.saw("missing_rows", int((~obs).sum()))
    lc.check_smooth(ctx, cls, M, ref, got, "smooth", 1e-7 if degen else 1e-9, Z=Z, omit=sorted(omit))
    # the last smoothed state is the last filtered state
    f = ctx.call("filter", cls + ".filter", kf.filter, Z)
    ctx.close(got[0][-1], f[0][-1], ref.ms[-1], "smooth/last", cls + " last smoothed mean", 1e-9)
    ctx.close(got[1][-1], f[1][-1], ref.cs[-1], "smooth/last", cls + " last smoothed covariance", 1e-9)
    if obs.any() and M.T > 1:
        ctx.sig(cls, M.signature(), mk, "omit" + "".join(sorted(omit)))
        ctx.sample({"class": cls, "model": M.describe(), "Z": Z})


def long(ctx, rng):
    dense(ctx, rng, T=int(rng.choice([40, 75, 130, 260, 520])), n=int(rng.randint(1, 5)),
          m=int(rng.randint(1, 4)))
    ctx.saw("long")


def vlong(ctx, rng):
    """Thousands of steps: counters, thresholds and accumulated error."""
    dense(ctx, rng, T=int(rng.randint(1000, 3000)), n=int(rng.randint(1, 4)), m=int(rng.randint(1, 3)),
          mask=str(rng.choice(["gaps", "gaps", "any"])))
    ctx.saw("vlong")


def xlong(ctx, rng):
    """More numbers than any shorter workload holds."""
    dense(ctx, rng, T=9000, n=5, m=int(rng.randint(1, 3)), tvp=0.2, mask=str(rng.choice(["gaps", "none", "any"])))
    ctx.saw("xlong")


def mixed(ctx, rng):
    """Every component in its own unit."""
    X = lc.Mixed(rng, True)
    if X.ok:
        lc.check_smooth(ctx, X.cls, X.M, X.ref, X.back(X.run(ctx, "smooth")), "mixed", X.tol, Z=X.Z)
    else:
        ctx.saw("skipped:ill-conditioned")


def huge(ctx, rng):
    """Dimensions at which other linear algebra paths (blocking) are taken."""
    dense(ctx, rng, T=int(rng.randint(2, 4)), n=int(rng.randint(15, 70)), m=int(rng.choice([1, 20, 40, 70])))
    ctx.saw("huge")


def settled(ctx, rng):
    """The filter has converged before anything changes."""
    dense(ctx, rng, settled=True)
    ctx.saw("settled")


def faint(ctx, rng):
    """The covariances do not move, the means do."""
    dense(ctx, rng, faint=True)
    ctx.saw("faint")


def wide(ctx, rng):
    dense(ctx, rng, T=int(rng.randint(2, 6)), n=int(rng.randint(7, 15)),
          m=int(rng.choice([1, 4, 8, 12])))
    ctx.saw("wide")


def wrong(ctx, cls, M, Z, ref):
    """the smoothed estimates of this model are off, or not there"""
    got = ctx.call("singular", cls + ".smooth", M.make(cls).smooth, Z)
    e = max(np.abs(got[1] - ref.sc).max() / max(ref.scs, 1e-300), np.abs(got[0] - ref.sm).max() / max(ref.sms, 1e-300))
    return not e < 1e-6


def singular(ctx, rng):
    """Predicted covariances that are singular, and not along an axis. Whether a direction is exactly known
    is then decided by rounding, and decided wrongly in about one model of 150 (known finding): most of a
    set of models must come out right."""
    bad, n, cls = [], 0, "KalmanFilter"  # the others need regular noise
    while n < 40:
        _, M, Z, obs, mk = lc.make_case(rng, cls, degen=1.0)
        if "degenerate(" not in M.tags:
            continue
        try:
            ref = lc.Ref(M, Z, obs)
        except np.linalg.LinAlgError:
            continue
        if not ref.rank or max(ref.Sc, ref.cond_P) > lc.COND_MAX:
            continue
        n += 1
        if wrong(ctx, cls, M, Z, ref):
            bad.append(dict(M.describe(), Z=Z))
    ctx.check(len(bad) <= 6, "singular", "%s.smooth of %d models with singular predicted covariances: %d wrong" % (
        cls, n, len(bad)), models=bad[:2])
    ctx.peak("singular_wrong_of_40", len(bad))
    ctx.saw("singular:" + cls)
    ctx.sig("singular", cls, rng.randint(1 << 30))


def cutoff(ctx, rng):
    """One fixed model of that kind which comes out wrong."""
    cls, M, Z, obs, mk = lc.make_case(core.case_rng("P02", "dense", 115573472), None, degen=0.15)
    ref = lc.Ref(M, Z, obs)
    ctx.saw("cutoff")
    ctx.check(not wrong(ctx, cls, M, Z, ref), "singular-cutoff:%s.smooth" % cls,
              "%s.smooth of the fixed model with a singular predicted covariance" % cls, model=M.describe(), Z=Z)


KINDS = {"dense": dense, "long": long, "wide": wide, "vlong": vlong, "xlong": xlong, "mixed": mixed, "huge": huge, "settled": settled, "faint": faint, "singular": singular, "cutoff": cutoff}
PLAN = {"quick": {"vlong": 24, "xlong": 3, "mixed": 1000, "huge": 40, "dense": 6000, "long": 200, "wide": 500, "settled": 500, "faint": 400, "singular": 48, "cutoff": 1},
        "thorough": {"vlong": 200, "xlong": 24, "mixed": 15000, "huge": 500, "dense": 90000, "long": 2500, "wide": 8000, "settled": 8000, "faint": 6000, "singular": 600, "cutoff": 1}}
REQUIRED = ["smooth:" + c for c in models.LINEAR] + ["mixed:" + c for c in models.LINEAR] + ["degenerate noise", "long", "wide", "vlong", "xlong", "huge", "settled", "faint", "missing_rows"] + ["singular:KalmanFilter", "cutoff"]
ASSUMPTIONS = ["models are well conditioned (innovation and predicted covariances below 2e4)",
               "time-varying noise covariances only on KalmanFilter, as documented"]
