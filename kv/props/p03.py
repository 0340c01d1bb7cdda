"""P03: loglikelihood is the joint log density of the observed rows."""

import numpy as np

from .. import lincommon as lc, models
from . import p01

RULE = p01.RULE


def dense(ctx, rng, cls=None, **opt):
    cls, M, Z, obs, mk = lc.make_case(rng, cls, degen=0.15, **opt)
    degen = "degenerate(" in M.tags
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.25 and not degen else ((), {})
    ref = lc.Ref(M, Z, obs, smooth=False)
    if ref.Sc > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    if degen:
        ctx.saw("degenerate noise")
    kf = ctx.call("construct", cls + " constructor", M.make, cls, omit, **extra)
    got = ctx.call("loglik", cls + ".loglikelihood", kf.loglikelihood, Z)
    ctx.saw("loglik:" + cls)
    ctx.saw("missing_rows", int((~obs).sum()))
    ctx.check(np.ndim(got) == 0, "loglik/shape", "loglikelihood must be a scalar")
    N = int(obs.sum()) * M.m
    tol = 1e-9 if ref.Sc < 1e3 else 1e-8
    if ref.D is not None:
        parts = ref.D.loglik_parts()
        scale = np.abs(parts).sum() + N
    else:
        scale = abs(ref.ll) + N
    ctx.close(float(got), ref.ll, max(scale, 1e-300), "loglik/value",
              cls + ".loglikelihood", tol, model=M.describe(), Z=Z, omit=sorted(omit))
    if N == 0:
        ctx.saw("all_missing")
    # chain rule: the log density of the first k rows is the sum of the first k terms
    if ref.D is not None and M.T > 1:
        k = int(rng.randint(1, M.T))
        g2 = ctx.call("loglik", cls + ".loglikelihood(prefix)", kf.loglikelihood, Z[:k])
        if not (k == 1 and M.m > 1 and False):
            ctx.close(float(g2), parts[:k].sum(), np.abs(parts[:k]).sum() + M.m,
                      "loglik/prefix", cls + ".loglikelihood of the first %d rows" % k, tol,
                      model=M.describe(), Z=Z)
        ctx.saw("prefix")
    if N:
        ctx.sig(cls, M.signature(), mk, "omit" + "".join(sorted(omit)))
        ctx.sample({"class": cls, "model": M.describe(), "Z": Z, "loglik": float(got)})


def long(ctx, rng):
    dense(ctx, rng, T=int(rng.choice([40, 75, 130, 260, 520])), n=int(rng.randint(1, 5)),
          m=int(rng.randint(1, 4)))
    ctx.saw("long")


def vlong(ctx, rng):
    """Thousands of steps: counters, thresholds and accumulated error."""
    dense(ctx, rng, T=int(rng.randint(1000, 3000)), n=int(rng.randint(1, 4)), m=int(rng.randint(1, 3)),
          mask=str(rng.choice(["gaps", "gaps", "any"])))
    ctx.saw("vlong")


def xlong(ctx, rng):
    """More numbers than any shorter workload holds."""
    dense(ctx, rng, T=9000, n=5, m=int(rng.randint(1, 3)), tvp=0.2, mask=str(rng.choice(["gaps", "none", "any"])))
    ctx.saw("xlong")


def mixed(ctx, rng):
    """Every component in its own unit."""
    X = lc.Mixed(rng, False)
    if X.ok:
        N = int(X.obs.sum())
        shift = N * np.log(X.dz).sum()
        ctx.close(float(X.run(ctx, "loglikelihood")), X.ref.ll - shift,
                  max(np.abs(X.ref.D.loglik_parts()).sum() + N * X.M.m + abs(shift), 1e-300), "mixed",
                  X.cls + ".loglikelihood", X.tol, model=X.M.describe(), Z=X.Z)
    else:
        ctx.saw("skipped:ill-conditioned")


def huge(ctx, rng):
    """Dimensions at which other linear algebra paths (blocking) are taken."""
    dense(ctx, rng, T=int(rng.randint(2, 4)), n=int(rng.randint(15, 70)), m=int(rng.choice([1, 20, 40, 70])),
          scale="far" if rng.rand() < 0.6 else True)
    ctx.saw("huge")


def settled(ctx, rng):
    """The filter has converged before anything changes."""
    dense(ctx, rng, settled=True)
    ctx.saw("settled")


def wide(ctx, rng):
    dense(ctx, rng, T=int(rng.randint(2, 6)), n=int(rng.randint(7, 15)),
          m=int(rng.choice([1, 4, 8, 12])))
    ctx.saw("wide")


def normalised(ctx, rng):
    """exp(loglikelihood) integrates to one over a 1-dim observation grid."""
    cls = lc.pick_class(rng)
    M = models.lin(rng, T=int(rng.randint(1, 4)), n=int(rng.randint(1, 4)), m=1,
                   tv_ok=lc.TV[cls], scale=False)
    z = models.simulate(rng, M)[1]
    k = int(rng.randint(M.T))
    kf = ctx.call("construct", cls, M.make, cls)
    obs = np.ones(M.T, bool)
    D = lc.Ref(M, z, obs).D
    # marginal sd of z_k given the others bounds the grid
    sd = float(np.sqrt(M.at("C", k).dot(D.P[k, :, k, :].astype(float)).dot(M.at("C", k).T)
                       + M.at("R", k))[0, 0])
    mu = float((M.at("C", k).dot(D.mu[k].astype(float)) + M.at("d", k))[0])
    others = z.copy()
    base = np.ma.array(others, mask=np.zeros_like(others, bool))
    base.mask[k] = True
    l0 = ctx.call("loglik", cls, kf.loglikelihood, base)
    lo, hi = mu - 14 * sd, mu + 14 * sd
    # conditional density may sit away from the marginal mean: widen to the data
    grid = np.linspace(lo, hi, 1201)
    step = grid[1] - grid[0]
    sdc = float(np.sqrt(M.at("R", k))[0, 0])
    if sdc < 3 * step:
        ctx.saw("skipped:grid")
        return
    tot = 0.0
    zz = z.copy()
    for v in grid:
        zz[k, 0] = v
        tot += np.exp(ctx.call("loglik", cls, kf.loglikelihood, zz) - l0)
    ctx.close(tot * step, 1.0, 1.0, "loglik/normalised",
              "integral over row %d of the conditional density" % k, 1e-5, model=M.describe(), z=z)
    ctx.saw("normalised")
    ctx.sig("norm", cls, M.signature(), k)


KINDS = {"dense": dense, "long": long, "wide": wide, "vlong": vlong, "xlong": xlong, "mixed": mixed, "huge": huge, "settled": settled, "normalised": normalised}
PLAN = {"quick": {"vlong": 24, "xlong": 3, "mixed": 1000, "huge": 60, "dense": 5000, "long": 150, "wide": 300, "settled": 500, "normalised": 16},
        "thorough": {"vlong": 200, "xlong": 24, "mixed": 15000, "huge": 500, "dense": 60000, "long": 1500, "wide": 500, "settled": 5000, "normalised": 200}}
REQUIRED = ["loglik:" + c for c in models.LINEAR] + ["mixed:" + c for c in models.LINEAR] + ["degenerate noise", "long", "wide", "vlong", "xlong", "huge", "settled", "missing_rows", "prefix",
                                                     "all_missing", "normalised"]
ASSUMPTIONS = ["models are well conditioned (innovation covariances below 2e4)",
               "time-varying noise covariances only on KalmanFilter, as documented"]
