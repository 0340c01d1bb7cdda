"""P13: unscented filters compute the documented unscented transform."""

import numpy as np

from .. import models, nlcommon as nl, oracle

RULE = ("random nonlinear models (sin/cos/tanh and multiplicative noise) run through every unscented "
        "filter, the user functions recording each evaluation; distinct by class, dimensions, "
        "time variation, nonlinearity, operation and mask; non-trivial when the functions are nonlinear "
        "and a row is observed")


def expected(N, ref, Z, observed, smooth):
    """[(which, index, t, sigma points [k, dim(s)], mandatory)]"""
    fm, fc = ref[0], ref[1]
    out = []
    n, q, r = N.n, len(N.Q), len(N.R)
    for t in range(N.T):
        i, j = (t - 1 if len(N.A) > 1 else 0), (t if len(N.C) > 1 else 0)
        if N.additive:
            if t:
                X, w = oracle.sigma(fm[t - 1], fc[t - 1])
                out.append(("f", i, t, X, True))
                m, P, _ = oracle.wmom(np.array([N.f(t - 1)(x) for x in X]), w)
                P = P + N.Q
            else:
                m, P = N.mu0, N.P0
            X, _ = oracle.sigma(m, P)
            out.append(("g", j, t, X, bool(observed[t])))
        else:
            m, P = (N.mu0, N.P0) if t == 0 else (fm[t - 1], fc[t - 1])
            X, _ = oracle.sigma(np.concatenate([m, np.zeros(q + r)]), oracle._bd(P, N.Q, N.R))
            Xp = X[:, :n]
            if t:
                out.append(("f", i, t, X[:, :n + q], True))
                Xp = np.array([N.f(t - 1)(x[:n], x[n:n + q]) for x in X])
            out.append(("g", j, t, np.hstack([Xp, X[:, n + q:]]), bool(observed[t])))
    if smooth:
        for t in range(N.T - 1):
            i = t if len(N.A) > 1 else 0
            if N.additive:
                X, _ = oracle.sigma(fm[t], fc[t])
            else:
                X, _ = oracle.sigma(np.concatenate([fm[t], np.zeros(q)]), oracle._bd(fc[t], N.Q))
            out.append(("f", i, t + 1, X, True))
    return out


def column_scales(N, which, W):
    """Magnitudes of the two parts of the sigma points: state, and noise in its own units."""
    n, a = N.n, np.abs(W)
    s = np.full(W.shape[1], max(N.ux, a[:, :n].max()))
    if W.shape[1] > n:
        s[n:] = max(N.ux if which == "f" else N.uz, a[:, n:].max())
    return s


def inspect(ctx, N, log, exp, what, tol=1e-6, **det):
    """Every evaluation is at an expected sigma point; every mandatory one was evaluated."""
    rec = {}
    for which, i, x, nz in log:
        rec.setdefault((which, i), []).append(x if nz is None else np.concatenate([x, nz]))
    want = {}
    for which, i, t, X, must in exp:
        want.setdefault((which, i), []).append((t, X, must))
    for key, pts in rec.items():
        name = "transition" if key[0] == "f" else "observation"
        ctx.check(key in want, "evaluation/unknown",
                  "%s evaluated %s function %d which no step uses" % (what, name, key[1]), **det)
        W = np.vstack([X for _, X, _ in want[key]])
        s = column_scales(N, key[0], W)
        D = (np.abs(np.array(pts)[:, None, :] - W[None]) / s).max(axis=2)
        far = D.min(axis=1)
        k = int(np.argmax(far))
        ctx.check(far[k] <= tol, "evaluation/point",
                  "%s evaluated %s function %d at a point (relatively) %.3g away from every sigma point"
                  % (what, name, key[1], far[k]), point=pts[k], **det)
        ctx.saw("evaluations", len(pts))
        # at most one evaluation per sigma point and transform
        ctx.check(len(pts) <= len(W), "evaluation/count",
                  "%s evaluated %s function %d %d times for %d sigma points"
                  % (what, name, key[1], len(pts), len(W)), **det)
    for which, i, t, X, must in exp:
        if not must:
            continue
        P = np.array(rec.get((which, i), np.zeros((0, X.shape[1]))))
        ctx.check(len(P) > 0, "evaluation/missing", "%s never evaluated %s[%d]" % (what, which, i), **det)
        D = (np.abs(P[None] - X[:, None, :]) / column_scales(N, which, X)).max(axis=2).min(axis=1)
        ctx.check(D.max() <= tol, "evaluation/missing",
                  "%s did not evaluate %s[%d] at a sigma point of step %d" % (what, which, i, t), **det)
        ctx.saw("transforms")


def batch(ctx, rng, **opt):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", tvlen=int(rng.randint(0, 3)), **opt)
    if rng.rand() < 0.3:
        if N.n > 1:
            N.Q = models.spd(rng, N.n, kind="corr")
        if N.m > 1:
            N.R = models.spd(rng, N.m, kind="corr")
        if N.n > 1:
            N.P0 = models.spd(rng, N.n, kind="corr")
    N.units(rng)
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("skipped:indefinite-transform")
        return
    kf = ctx.call("construct", cls, N.make, cls, rng)
    N.log = []
    f = ctx.call("filter", cls + ".filter", kf.filter, Z)
    log, N.log = N.log, None
    nl.compare(ctx, N, f, ref[0], ref[1], "filter", cls + ".filter", Z=Z)
    exp = expected(N, ref, Z, obs, False)
    inspect(ctx, N, log, exp, cls + ".filter", model=N.describe(), Z=Z)
    ctx.saw("filter:" + cls)
    N.log = []
    s = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
    log, N.log = N.log, None
    nl.compare(ctx, N, s, ref[2], ref[3], "smooth", cls + ".smooth", Z=Z)
    inspect(ctx, N, log, expected(N, ref, Z, obs, True), cls + ".smooth", model=N.describe(), Z=Z)
    ctx.saw("smooth:" + cls)
    if N.n > 3:
        ctx.saw("n>3:" + cls)
    if N.m > 1:
        ctx.saw("m>1:" + cls)
    if obs.any():
        ctx.sig(cls, N.signature(), mk)


def big(ctx, rng):
    batch(ctx, rng, n=int(rng.randint(4, 8)), m=int(rng.randint(1, 6)), eps=0.05)


def online(ctx, rng):
    """One update from an arbitrary Gaussian, every argument explicit or stored."""
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", tv=False, T=2)
    W = nl.NL(rng, cls != "UKF", tv=False, T=2, n=N.n, m=N.m)
    N.units(rng)
    W.rescale(N.sx, N.sz)
    kf = ctx.call("construct", cls, N.make, cls, rng)
    kw, src = {}, {}
    for k, a in (("f", "transition_function"), ("g", "observation_function"),
                 ("Q", "transition_covariance"), ("R", "observation_covariance")):
        src[k] = W if rng.rand() < 0.4 else N
        if src[k] is W:
            kw[a] = W.lib_f(0) if k == "f" else W.lib_g(0) if k == "g" else getattr(W, k).copy()
    m, P = N.sx * rng.randn(N.n), N.sx**2 * models.spd(rng, N.n, 10)
    o = None if rng.rand() < 0.2 else N.simulate(rng)[1][0]
    f, g, Q, R = src["f"].f(0), src["g"].g(0), src["Q"].Q, src["R"].R
    zz = np.zeros((2, N.m))
    zz[1] = 0 if o is None else o
    fn = oracle.ut_additive if N.additive else oracle.ut_augmented
    try:
        rm, rc = (x[1] for x in fn(lambda t: f, lambda t: g, Q, R, m, P, zz, [False, o is not None])[:2])
    except np.linalg.LinAlgError:
        return
    ev = np.linalg.eigvalsh(rc)
    if ev[0] < 1e-5 * ev[-1]:
        return
    u = ctx.call("update", cls + ".filter_update", kf.filter_update, m.copy(), P.copy(), o, **kw)
    det = dict(model=N.describe(), passed=sorted(kw), mean=m, cov=P, observation=o)
    ctx.close(u[1], rc, max(N.ux**2, np.abs(rc).max()), "update/cov", cls + ".filter_update covariance", 1e-7, **det)
    ctx.close(u[0], rm, max(N.ux, np.abs(rm).max()), "update/mean", cls + ".filter_update mean", 1e-7, **det)
    ctx.saw("update:" + cls)
    ctx.sig("update", cls, N.n, N.m, sorted(kw), o is None)


KINDS = {"batch": batch, "big": big, "online": online}
PLAN = {"quick": {"batch": 1500, "big": 250, "online": 1500},
        "thorough": {"batch": 18000, "big": 3000, "online": 18000}}
REQUIRED = ["%s:%s" % (k, c) for k in ("filter", "smooth", "update", "n>3", "m>1") for c in nl.UNSC] + [
    "evaluations", "transforms"]
ASSUMPTIONS = ["default scaling: alpha = 1, beta = 0, kappa = 3 - n, columns of the lower Cholesky factor",
               "models on which the transform has a positive definite covariance with a margin",
               "the observation function may or may not be evaluated for a missing row"]
