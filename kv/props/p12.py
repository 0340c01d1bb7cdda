"""P12: unscented filters are exact on affine models."""

import numpy as np

from .. import lincommon as lc, models, nlcommon as nl

RULE = ("random affine models with per-step functions handed to every unscented filter and compared with "
        "explicit Gaussian conditioning; distinct by class, dimensions, time variation, scale and mask; "
        "non-trivial when some row is observed")


def as_lin(N):
    """The linear-Gaussian model an affine NL defines."""
    pick = lambda L, always=False: np.array(L) if len(L) > 1 or always else np.array(L[0])  # noqa: E731
    if N.additive:
        Q, R, tv = N.Q, N.R, set()
    else:
        Q = pick([g.dot(N.Q).dot(g.T) for g in N.G])
        R = pick([h.dot(N.R).dot(h.T) for h in N.H])
        tv = {k for k, v in (("Q", Q), ("R", R)) if v.ndim == 3}
    p = dict(A=pick(N.A), b=pick(N.b), C=pick(N.C), d=pick(N.d), Q=Q, R=R, mu0=N.mu0, P0=N.P0)
    if len(N.A) > 1:
        tv |= {"A", "b"}
    if len(N.C) > 1:
        tv |= {"C", "d"}
    return models.Lin(N.n, N.m, N.T, {k: np.array(v) for k, v in p.items()}, tv, "affine")


def affine(ctx, rng, n=None, m=None, faint=False):
    cls = str(rng.choice(["AUKF", "SqrtAUKF"])) if faint else nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", affine=True, n=n, m=m, tvlen=int(rng.randint(0, 3)))
    sx = sz = 1.0
    if rng.rand() < 0.3:
        # other units
        r = rng.choice([3, 6, 12])
        sx, sz = 10.0 ** rng.uniform(-r, r), 10.0 ** rng.uniform(-r, r)
        N.b = [b * sx for b in N.b]; N.C = [c * sz / sx for c in N.C]; N.d = [d * sz for d in N.d]
        N.Q, N.R, N.mu0, N.P0 = N.Q * sx**2, N.R * sz**2, N.mu0 * sx, N.P0 * sx**2
    if rng.rand() < 0.3:
        if N.n > 1:
            N.Q = models.spd(rng, N.n, kind="corr") * sx**2
        if N.m > 1:
            N.R = models.spd(rng, N.m, kind="corr") * sz**2
    Z, obs, mk = N.observations(rng)
    if faint:
        # offsets of the same size: what the observation functions return must tell the states apart
        N.d = [0 * d for d in N.d]
        N.C, Z = lc.faint(rng, N.C, N.R, Z)
    M = as_lin(N)
    ref = lc.Ref(M, Z, obs)
    if max(ref.Sc, ref.cond_P) > 1e4:
        ctx.saw("skipped:ill-conditioned")
        return
    kf = ctx.call("construct", cls, N.make, cls, rng)
    f = ctx.call("filter", cls + ".filter", kf.filter, Z)
    lc.check_filter(ctx, cls, M, ref, f, "filter", 1e-8, Z=Z)
    ctx.saw("filter:" + cls)
    s = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
    lc.check_smooth(ctx, cls, M, ref, s, "smooth", 1e-8, Z=Z)
    ctx.saw("smooth:" + cls)
    if N.T > 1:
        t = int(rng.randint(1, N.T))
        kw = {}
        if N.tv or rng.rand() < 0.3:
            kw = dict(transition_function=N.lib_f(t - 1), observation_function=N.lib_g(t))
        o = np.array(np.ma.getdata(Z)[t]) if obs[t] else None
        g = ctx.call("update", cls + ".filter_update", kf.filter_update, ref.fm[t - 1].copy(),
                     ref.fc[t - 1].copy(), o, **kw)
        det = dict(model=N.describe(), Z=Z, t=t)
        ctx.close(g[1], ref.fc[t], ref.cs[t], "update/cov", cls + ".filter_update covariance", 1e-8, **det)
        ctx.close(g[0], ref.fm[t], ref.ms[t], "update/mean", cls + ".filter_update mean", 1e-8, **det)
        ctx.saw("update:" + cls)
    if N.n > 3:
        ctx.saw("n>3:" + cls)
    if obs.any():
        ctx.sig(cls, N.signature(), mk, sx == 1)


def big(ctx, rng):
    affine(ctx, rng, int(rng.randint(4, 10)), int(rng.randint(1, 8)))


def faint(ctx, rng):
    """The covariances do not move, the means do."""
    affine(ctx, rng, faint=True)
    ctx.saw("faint")


def minimal(ctx, rng):
    """Defaults: no covariances given, functions only."""
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", affine=True, tv=False, T=int(rng.randint(1, 6)))
    dflt = dict(transition_covariance=np.eye(N.n), observation_covariance=np.eye(N.m),
                initial_state_mean=np.zeros(N.n), initial_state_covariance=np.eye(N.n))
    attr = dict(transition_covariance="Q", observation_covariance="R", initial_state_mean="mu0",
                initial_state_covariance="P0")
    F, G = N.funcs()
    kw = dict(transition_functions=F, observation_functions=G)
    drop = [k for k in dflt if rng.rand() < 0.6]
    for k in dflt:
        if k in drop:
            setattr(N, attr[k], dflt[k])
        else:
            kw[k] = getattr(N, attr[k]).copy()
    if set(dflt) - {"observation_covariance"} <= set(drop) or rng.rand() < 0.3:
        kw["n_dim_state"] = N.n
    if "observation_covariance" in drop or rng.rand() < 0.3:
        kw["n_dim_obs"] = N.m
    M = as_lin(N)
    Z, obs, mk = N.observations(rng)
    ref = lc.Ref(M, Z, obs)
    if max(ref.Sc, ref.cond_P) > 1e4:
        return
    kf = ctx.call("construct", cls, models.cls_of(cls), **kw)
    f = ctx.call("filter", cls + ".filter", kf.filter, Z)
    lc.check_filter(ctx, cls, M, ref, f, "defaults", 1e-8, Z=Z, omitted=drop)
    ctx.saw("defaults:" + cls)
    if drop:
        ctx.sig("defaults", cls, N.n, N.m, sorted(drop))


KINDS = {"affine": affine, "big": big, "faint": faint, "minimal": minimal}
PLAN = {"quick": {"affine": 1800, "big": 300, "faint": 300, "minimal": 500},
        "thorough": {"affine": 25000, "big": 4000, "faint": 4000, "minimal": 5000}}
REQUIRED = ["%s:%s" % (k, c) for k in ("filter", "smooth", "update", "n>3", "defaults") for c in nl.UNSC] + ["faint"]
ASSUMPTIONS = ["well-conditioned models (condition number up to 1e4)"]
