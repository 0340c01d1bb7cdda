"""P01: filtering returns the exact conditional distribution."""

import numpy as np

from .. import lincommon as lc, models

RULE = ("random linear-Gaussian model (dimensions, horizon, time-varying subset, shapes of A/C, "
        "noise conditioning, units), observations and missing pattern; distinct by class, "
        "dimensions, horizon bucket, time-varying subset, matrix kinds and missing pattern; "
        "non-trivial when at least one observed row reached the monitor")


def dense(ctx, rng, cls=None, **opt):
    cls, M, Z, obs, mk = lc.make_case(rng, cls, degen=0.15, **opt)
    degen = "degenerate(" in M.tags
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.25 and not degen else ((), {})
    ref = lc.Ref(M, Z, obs, smooth=False)
    if ref.Sc > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    if degen:
        ctx.saw("degenerate noise")
    kf = ctx.call("construct", cls + " constructor", M.make, cls, omit, **extra)
    got = ctx.call("filter", cls + ".filter", kf.filter, Z)
    ctx.saw("filter:" + cls)
    ctx.saw("steps", M.T)
    ctx.saw("observed_rows", int(obs.sum()))
    ctx.saw("missing_rows", int((~obs).sum()))
    lc.check_filter(ctx, cls, M, ref, got, Z=Z, omit=sorted(omit))
    if obs.any():
        ctx.sig(cls, M.signature(), mk, "omit" + "".join(sorted(omit)))
        ctx.sample({"class": cls, "model": M.describe(), "Z": Z})


def long(ctx, rng):
    T = int(rng.choice([40, 75, 130, 260, 520]))
    dense(ctx, rng, T=T, n=int(rng.randint(1, 5)), m=int(rng.randint(1, 4)))
    ctx.saw("long")


def vlong(ctx, rng):
    """Thousands of steps: counters, thresholds and accumulated error."""
    dense(ctx, rng, T=int(rng.randint(1000, 3000)), n=int(rng.randint(1, 4)), m=int(rng.randint(1, 3)),
          mask=str(rng.choice(["gaps", "gaps", "any"])))
    ctx.saw("vlong")


def xlong(ctx, rng):
    """More numbers than any shorter workload holds."""
    dense(ctx, rng, T=9000, n=5, m=int(rng.randint(1, 3)), tvp=0.2, mask=str(rng.choice(["gaps", "none", "any"])))
    ctx.saw("xlong")


def mixed(ctx, rng):
    """Every component in its own unit."""
    X = lc.Mixed(rng, False)
    if X.ok:
        lc.check_filter(ctx, X.cls, X.M, X.ref, X.back(X.run(ctx, "filter")), "mixed", X.tol, Z=X.Z)
    else:
        ctx.saw("skipped:ill-conditioned")


def huge(ctx, rng):
    """Dimensions at which other linear algebra paths (blocking) are taken."""
    dense(ctx, rng, T=int(rng.randint(2, 4)), n=int(rng.randint(15, 70)), m=int(rng.choice([1, 20, 40, 70])))
    ctx.saw("huge")


def settled(ctx, rng):
    """The filter has converged before anything changes."""
    dense(ctx, rng, settled=True)
    ctx.saw("settled")


def faint(ctx, rng):
    """The covariances do not move, the means do."""
    dense(ctx, rng, faint=True)
    ctx.saw("faint")


def wide(ctx, rng):
    dense(ctx, rng, T=int(rng.randint(2, 6)), n=int(rng.randint(7, 15)),
          m=int(rng.choice([1, 4, 8, 12])))
    ctx.saw("wide")


def robot(ctx, rng):
    """Realistic workload: the robot data with hostile missing patterns."""
    from pykalman.datasets import load_robot

    d = load_robot()
    p = dict(A=d.transition_matrix, b=np.asarray(d.transition_offsets, float),
             Q=d.transition_covariance, C=d.observation_matrix, d=d.observation_offset,
             R=d.observation_covariance, mu0=d.initial_state_mean,
             P0=d.initial_state_covariance)
    p = {k: np.array(v, dtype=float) for k, v in p.items()}
    T = int(rng.randint(20, 200))
    s = int(rng.randint(0, len(d.observations) - T))
    p["b"] = p["b"][s:s + T]
    M = models.Lin(5, 2, T, p, {"b"}, "robot")
    kind, k = models.mask(rng, T, 2)
    base = np.ma.getmaskarray(d.observations)[s:s + T]
    k = base if k is None else (k | base)
    Z = np.ma.array(np.ma.getdata(d.observations)[s:s + T], mask=k)
    obs = ~k.any(axis=1)
    cls = lc.pick_class(rng)
    ref = lc.Ref(M, Z, obs, smooth=False)
    kf = ctx.call("construct", cls, M.make, cls)
    got = ctx.call("filter", cls + ".filter", kf.filter, Z)
    ctx.saw("robot"); ctx.saw("filter:" + cls)
    lc.check_filter(ctx, cls, M, ref, got)
    ctx.sig("robot", cls, kind)


KINDS = {"dense": dense, "long": long, "wide": wide, "vlong": vlong, "xlong": xlong, "mixed": mixed, "huge": huge, "settled": settled, "faint": faint, "robot": robot}
PLAN = {"quick": {"vlong": 24, "xlong": 3, "mixed": 1000, "huge": 40, "dense": 6000, "long": 200, "wide": 500, "settled": 500, "faint": 400, "robot": 48},
        "thorough": {"vlong": 200, "xlong": 24, "mixed": 15000, "huge": 500, "dense": 90000, "long": 2500, "wide": 8000, "settled": 8000, "faint": 6000, "robot": 300}}
REQUIRED = ["filter:" + c for c in models.LINEAR] + ["mixed:" + c for c in models.LINEAR] + ["degenerate noise", "long", "wide", "vlong", "xlong", "huge", "settled", "faint", "robot", "missing_rows"]
ASSUMPTIONS = ["models are well conditioned (innovation covariances below 2e4)",
               "time-varying noise covariances only on KalmanFilter, as documented"]
