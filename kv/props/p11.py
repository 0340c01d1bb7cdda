"""P11: reported covariances are finite, symmetric, PSD, ordered and data independent."""

import numpy as np

from .. import lincommon as lc, models, nlcommon as nl

RULE = ("every covariance returned by filter, smooth and filter_update inspected on random models, with "
        "extra rows masked and values replaced in a second execution; distinct by class, dimensions, "
        "matrix kinds, time-varying set and mask pair; non-trivial when some row is observed")


def valid(ctx, c, scale, mech, what, tol=1e-8, **det):
    """finite, symmetric, PSD; c [..., n, n]; scale [...]"""
    ctx.check(np.isfinite(c).all(), mech + "/finite", what + " is not finite", **det)
    s = np.broadcast_to(np.asarray(scale, float), c.shape[:-2])[..., None, None]
    ctx.close(c, np.swapaxes(c, -1, -2), s, mech + "/symmetric", what + " symmetric", tol, **det)
    w = np.linalg.eigvalsh(0.5 * (c + np.swapaxes(c, -1, -2)))
    ctx.check((w >= -tol * s[..., 0]).all(), mech + "/psd",
              "%s has a negative eigenvalue %.3g (magnitude %.3g)" % (what, w.min(), np.max(s)), **det)
    ctx.saw("covariances_inspected", int(np.prod(c.shape[:-2], dtype=int)))


def leq(ctx, a, b, scale, mech, what, tol=1e-7, **det):
    """a <= b in the Loewner order"""
    d = b - a
    w = np.linalg.eigvalsh(0.5 * (d + np.swapaxes(d, -1, -2)))
    s = np.broadcast_to(np.asarray(scale, float), d.shape[:-2])[..., None]
    ctx.check((w >= -tol * s).all(), mech,
              "%s: difference has eigenvalue %.3g at time %s (magnitude %.3g)"
              % (what, w.min(), np.unravel_index(np.argmin(w / np.maximum(s, 1e-300)), w.shape)[0],
                 s.max()), **det)
    ctx.saw("orders_inspected", len(w))


def linear(ctx, rng, T=None):
    cls = lc.pick_class(rng)
    M = models.lin(rng, T=T, tv_ok=lc.TV[cls], exact_ok=cls == "KalmanFilter")
    Z, obs, mk = models.observations(rng, M)
    ref = lc.Ref(M, Z, obs, recursive=T is not None)
    if ref.Sc > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    kf = ctx.call("construct", cls, M.make, cls)
    det = dict(model=M.describe(), Z=Z)
    _, fc = ctx.call("filter", cls + ".filter", kf.filter, Z)
    fc = ctx.shape(fc, (M.T, M.n, M.n), "filter", cls + ".filter covariances")
    valid(ctx, fc, ref.cs, "filter", cls + ".filter covariance", **det)
    pred = np.array([M.at("P0", 0)] + [
        M.at("A", t).dot(fc[t]).dot(M.at("A", t).T) + M.at("Q", t) for t in range(M.T - 1)])
    leq(ctx, fc, pred, ref.cs, "filtered<=predicted", cls + " filtered vs predicted covariance", **det)
    ctx.saw("filter:" + cls)
    sm_ok = ref.cond_P <= lc.COND_MAX
    if sm_ok:
        _, sc = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
        sc = ctx.shape(sc, (M.T, M.n, M.n), "smooth", cls + ".smooth covariances")
        valid(ctx, sc, ref.scs, "smooth", cls + ".smooth covariance", 1e-7, **det)
        leq(ctx, sc, fc, ref.scs, "smoothed<=filtered", cls + " smoothed vs filtered covariance",
            1e-6, **det)
        ctx.saw("smooth:" + cls)
    # other values in the same rows: the same covariances
    o = np.ma.array(np.ma.getdata(Z).copy(), mask=np.ma.getmaskarray(Z).copy())
    o.data[...] = rng.randn(*o.shape) * rng.choice([1e-3, 1.0, 1e3]) * (M.sz if hasattr(M, "sz") else 1)
    _, fv = ctx.call("filter", cls + ".filter", kf.filter, o)
    ctx.close(fv, fc, ref.cs[:, None, None], "values", cls + ".filter covariance with other values",
              1e-10, **det)
    if sm_ok:
        _, sv = ctx.call("smooth", cls + ".smooth", kf.smooth, o)
        ctx.close(sv, sc, ref.scs, "values", cls + ".smooth covariance with other values", 1e-9, **det)
    ctx.saw("values_replaced")
    # fewer observed rows: covariances may only grow
    if obs.any():
        drop = rng.rand(M.T) < 0.4
        drop[rng.choice(np.flatnonzero(obs))] = True
        k = np.ma.getmaskarray(Z).copy()
        k[drop, rng.randint(M.m) if rng.rand() < 0.5 else slice(None)] = True
        Z2 = np.ma.array(np.ma.getdata(Z).copy(), mask=k)
        r2 = lc.Ref(M, Z2, ~k.any(axis=1), recursive=T is not None)
        if r2.Sc <= lc.COND_MAX:
            _, f2 = ctx.call("filter", cls + ".filter", kf.filter, Z2)
            valid(ctx, f2, r2.cs, "filter", cls + ".filter covariance (rows dropped)", **det)
            leq(ctx, fc, f2, r2.cs, "more-data/filter",
                cls + ".filter covariance with extra observed rows", **det)
            if sm_ok and r2.cond_P <= lc.COND_MAX:
                _, s2 = ctx.call("smooth", cls + ".smooth", kf.smooth, Z2)
                leq(ctx, sc, s2, r2.scs, "more-data/smooth",
                    cls + ".smooth covariance with extra observed rows", 1e-6, **det)
            ctx.saw("rows_dropped")
        ctx.sig(cls, M.signature(), mk, T is None)


def longrun(ctx, rng):
    linear(ctx, rng, T=int(rng.choice([100, 250, 500])))


def online(ctx, rng):
    """Chains of one-step updates from arbitrary valid starting covariances."""
    cls = lc.pick_class(rng)
    M = models.lin(rng, tv_ok=(), T=2)
    kf = ctx.call("construct", cls, M.make, cls)
    m, c = M.p["mu0"].copy(), models.spd(rng, M.n, scale=10.0 ** rng.uniform(-2, 2) * M.sx**2)
    A, Q, C, R = (M.p[k] for k in "AQCR")
    for i in range(12):
        P = A.dot(c).dot(A.T) + Q
        S = C.dot(P).dot(C.T) + R
        s = np.abs(P).max()
        if np.linalg.cond(S) > lc.COND_MAX or np.abs(S).max() > 1e6 * np.linalg.eigvalsh(R)[0]:
            break
        o = None if rng.rand() < 0.3 else M.sz * rng.randn(M.m)
        m, c = ctx.call("update", cls + ".filter_update", kf.filter_update, m, c, o)
        c = ctx.shape(c, (M.n, M.n), "update", cls + ".filter_update covariance")
        valid(ctx, c, s, "update", cls + ".filter_update covariance", model=M.describe())
        leq(ctx, c[None], P[None], [s], "update<=predicted", cls + ".filter_update vs prediction",
            model=M.describe(), observation=o)
        if o is None:
            leq(ctx, P[None], c[None], [s], "update<=predicted",
                cls + ".filter_update without observation is the prediction", model=M.describe())
        ctx.saw("online:" + cls)
        ctx.sig("online", cls, M.n, M.m, i, o is None)


def unscented(ctx, rng, **opt):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", **opt).units(rng)
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("skipped:indefinite-transform")
        return
    kf = ctx.call("construct", cls, N.make, cls, rng)
    det = dict(model=N.describe(), Z=Z)
    fm, fc = ctx.call("ukf-filter", cls + ".filter", kf.filter, Z)
    fc = ctx.shape(fc, (N.T, N.n, N.n), "ukf-filter", cls + ".filter covariances")
    valid(ctx, fc, max(N.ux**2, np.abs(ref[1]).max()), "ukf-filter", cls + ".filter covariance", **det)
    sm, sc = ctx.call("ukf-smooth", cls + ".smooth", kf.smooth, Z)
    sc = ctx.shape(sc, (N.T, N.n, N.n), "ukf-smooth", cls + ".smooth covariances")
    valid(ctx, sc, max(N.ux**2, np.abs(ref[1]).max()), "ukf-smooth", cls + ".smooth covariance", **det)
    ctx.check(np.isfinite(fm).all() and np.isfinite(sm).all(), "ukf-means", "means finite", **det)
    ctx.saw("ukf:" + cls)
    if obs.any():
        ctx.sig(cls, N.signature(), mk)


KINDS = {"linear": linear, "longrun": longrun, "online": online, "unscented": unscented}
PLAN = {"quick": {"linear": 2500, "longrun": 60, "online": 1200, "unscented": 1000},
        "thorough": {"linear": 30000, "longrun": 800, "online": 15000, "unscented": 12000}}
REQUIRED = (["%s:%s" % (k, c) for c in models.LINEAR for k in ("filter", "smooth", "online")]
            + ["ukf:" + c for c in nl.UNSC] + ["rows_dropped", "values_replaced"])
ASSUMPTIONS = ["well-conditioned models; for the unscented filters, models on which the transform itself "
               "(which has a negative centre weight for more than three dimensions) has a "
               "positive definite covariance"]
