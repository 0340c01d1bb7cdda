"""P09: the square-root filters are drop-in equivalents of their standard counterparts."""

import numpy as np

from .. import emcommon as em, lincommon as lc, models, nlcommon as nl, oracle

RULE = ("the same model, data and operation executed on a square-root filter and on its standard "
        "counterpart and compared operation by operation; distinct by class, operation, dimensions, "
        "matrix kinds, time-varying set and mask")


def linear(ctx, rng):
    cls = str(rng.choice(["CholeskyKalmanFilter", "BiermanKalmanFilter"]))
    M = models.lin(rng, tv_ok=lc.TV[cls])
    Z, obs, mk = models.observations(rng, M)
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.25 else ((), {})
    ref = lc.Ref(M, Z, obs)
    if max(ref.Sc, ref.cond_P) > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    sq = ctx.call("construct", cls, M.make, cls, omit, **extra)
    kf = ctx.call("construct", "KalmanFilter", M.make, "KalmanFilter", omit, **extra)
    det = dict(model=M.describe(), Z=Z, omit=sorted(omit))
    a, b = ctx.call("filter", cls, sq.filter, Z), ctx.call("filter", "KF", kf.filter, Z)
    ctx.close(a[0], b[0], ref.ms[:, None], "filter/mean", cls + ".filter mean vs standard", 1e-9, **det)
    ctx.close(a[1], b[1], ref.cs[:, None, None], "filter/cov", cls + ".filter cov vs standard", 1e-9,
              **det)
    ctx.saw("filter:" + cls)
    s = int(rng.randint(M.T))
    kw = {}
    t = min(s + 1, M.T - 1)
    names = dict(A="transition_matrix", b="transition_offset", C="observation_matrix",
                 d="observation_offset", Q="transition_covariance", R="observation_covariance")
    for k, n_ in names.items():
        if k in M.tv or rng.rand() < 0.3:
            kw[n_] = M.at(k, max(t - 1, 0) if k in "AbQ" else t)
    o = models.simulate(rng, M)[1][0] if rng.rand() < 0.8 else None
    u = ctx.call("update", cls, sq.filter_update, b[0][s].copy(), b[1][s].copy(), o, **kw)
    v = ctx.call("update", "KF", kf.filter_update, b[0][s].copy(), b[1][s].copy(), o, **kw)
    A, Q, C, R, b_, d_ = (kw.get(names[k], M.p[k]) for k in "AQCRbd")
    P = A.dot(b[1][s]).dot(A.T) + Q
    S = C.dot(P).dot(C.T) + R
    if max(np.linalg.cond(S), 1e-2 * np.abs(S).max() / np.linalg.eigvalsh(R)[0]) < lc.COND_MAX:
        mm = max(ref.ms.max(), np.abs(v[0]).max(), np.abs(A.dot(b[0][s]) + b_).max(),
                 np.sqrt(np.abs(P).max()))
        ctx.close(u[0], v[0], mm, "update/mean",
                  cls + ".filter_update mean vs standard", 1e-9, **det)
        ctx.close(u[1], v[1], np.abs(P).max(), "update/cov",
                  cls + ".filter_update cov vs standard", 1e-9, **det)
        ctx.saw("update:" + cls)
    a, b = ctx.call("smooth", cls, sq.smooth, Z), ctx.call("smooth", "KF", kf.smooth, Z)
    ctx.close(a[0], b[0], ref.sms, "smooth/mean", cls + ".smooth mean vs standard", 1e-8, **det)
    ctx.close(a[1], b[1], ref.scs, "smooth/cov", cls + ".smooth cov vs standard", 1e-8, **det)
    ctx.saw("smooth:" + cls)
    a, b = ctx.call("loglik", cls, sq.loglikelihood, Z), ctx.call("loglik", "KF", kf.loglikelihood, Z)
    mag = obs.sum() * M.m + (np.abs(ref.D.loglik_parts()).sum() if ref.D is not None else abs(ref.ll))
    ctx.close(float(a), float(b), max(mag, 1.0), "loglik", cls + ".loglikelihood vs standard", 1e-9,
              **det)
    ctx.saw("loglik:" + cls)
    seed = int(rng.randint(1 << 30))
    T = int(rng.randint(1, M.T + 1))
    a = ctx.call("sample", cls, sq.sample, T, random_state=seed)
    b = ctx.call("sample", "KF", kf.sample, T, random_state=seed)
    for i in (0, 1):
        ctx.check(np.shape(a[i]) == np.shape(b[i]), "sample", cls + ".sample shape vs standard")
        ctx.close(a[i], np.ma.getdata(b[i]), np.abs(b[i]).max() + 1e-300, "sample",
                  cls + ".sample vs standard with the same seed", 1e-9, **det)
    ctx.saw("sample:" + cls)
    if obs.any():
        ctx.sig(cls, M.signature(), mk)


def em_(ctx, rng):
    cls = str(rng.choice(["CholeskyKalmanFilter", "BiermanKalmanFilter"]))
    n, m = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    M = models.lin(rng, n=n, m=m, T=10 + 2 * (n + m), tv_ok=lc.TV[cls])
    z = models.simulate(rng, M)[1]
    Z, obs, mk = models.observations(rng, M, z)
    if obs.sum() < 6:
        return
    ref = lc.Ref(M, Z, obs)
    if max(ref.Sc, ref.cond_P) > lc.COND_MAX:
        return
    ev, keys = em.subset(rng)
    via = rng.randint(3)
    extra = {"em_vars": ev} if via == 1 else {}
    sq = ctx.call("construct", cls, M.make, cls, (), **extra)
    kf = ctx.call("construct", "KF", M.make, "KalmanFilter", (), **extra)
    kw = {"em_vars": ev} if via != 1 else {}
    steps = int(rng.randint(1, 4))
    xs, zs = ref.sms, np.abs(np.ma.getdata(Z)[obs]).max()
    for i in range(steps):
        ctx.call("em", cls + ".em", sq.em, Z, n_iter=1, **kw)
        ctx.call("em", "KF.em", kf.em, Z, n_iter=1, **kw)
        P = em.params_of(kf, M)
        floor = dict(A=1.0, b=xs, mu0=xs, Q=ref.scs, P0=ref.scs, C=zs / xs, d=zs, R=zs**2)
        for k, a in em.ATTR.items():
            ctx.close(getattr(sq, a), P.p[k], max(np.abs(P.p[k]).max(), floor[k]), "em/" + k,
                      "%s.em vs standard: %s after %d iterations" % (cls, a, i + 1), 1e-6,
                      model=M.describe(), Z=Z, em_vars=str(ev))
        ctx.saw("em:" + cls)
        for k in ("Q", "R", "P0"):
            c = P.p[k] if P.p[k].ndim == 3 else P.p[k][None]
            if min(np.linalg.eigvalsh(x)[0] / np.linalg.eigvalsh(x)[-1] for x in c) < 1e-3:
                return
        r = em.moments(P, Z, obs, recursive=True)
        if max(r[0].Sc, r[0].cond_P) > lc.COND_MAX or r[0].cs.max() > 1e3 * r[0].cs[0]:
            return
        Exx = r[2] + r[1][:, :, None] * r[1][:, None, :]
        if np.linalg.cond(Exx[:-1].sum(axis=0)) > 1e4 or np.linalg.cond(Exx[obs].sum(axis=0)) > 1e4:
            return
    ctx.sig("em", cls, n, m, "".join(sorted(keys)), mk, steps)


def unscented(ctx, rng, **opt):
    N = nl.NL(rng, True, **opt)
    if rng.rand() < 0.3:
        # strongly correlated noise with several dimensions
        if N.m > 1:
            N.R = models.spd(rng, N.m, kind="corr")
        if N.n > 1:
            N.Q = models.spd(rng, N.n, kind="corr")
        ctx.saw("correlated")
    N.units(rng)
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("skipped:reference")
        return
    sq = ctx.call("construct", "SqrtAUKF", N.make, "SqrtAUKF", rng)
    kf = ctx.call("construct", "AUKF", N.make, "AUKF", rng)
    det = dict(model=N.describe(), Z=Z)
    a, b = ctx.call("filter", "SqrtAUKF", sq.filter, Z), ctx.call("filter", "AUKF", kf.filter, Z)
    nl.compare(ctx, N, a, b[0], b[1], "ukf-filter", "square-root UKF filter vs standard", 1e-8, Z=Z)
    c, d = ctx.call("smooth", "SqrtAUKF", sq.smooth, Z), ctx.call("smooth", "AUKF", kf.smooth, Z)
    nl.compare(ctx, N, c, d[0], d[1], "ukf-smooth", "square-root UKF smoother vs standard", 1e-8, Z=Z)
    s = int(rng.randint(N.T))
    kw = {}
    if N.tv:
        kw = dict(transition_function=N.lib_f(0), observation_function=N.lib_g(0))
    o = N.simulate(rng)[1][0] if rng.rand() < 0.8 else None
    u = ctx.call("update", "SqrtAUKF", sq.filter_update, b[0][s].copy(), b[1][s].copy(), o, **kw)
    v = ctx.call("update", "AUKF", kf.filter_update, b[0][s].copy(), b[1][s].copy(), o, **kw)
    f0, g0 = N.f(0), N.g(0)
    zz = np.zeros((2, N.m)) if o is None else np.vstack([np.zeros(N.m), o])
    try:
        w = oracle.ut_additive(lambda t: f0, lambda t: g0, N.Q, N.R, b[0][s], b[1][s], zz,
                               [False, o is not None])[1][1]
        w = np.linalg.eigvalsh(w)
    except np.linalg.LinAlgError:
        w = np.array([0.0, 1.0])
    if w[0] > 1e-5 * w[-1]:
        for i in (0, 1):
            ctx.close(u[i], v[i], max(N.ux ** (i + 1), np.abs(v[i]).max()), "ukf-update",
                      "square-root UKF filter_update vs standard", 1e-8, **det)
        ctx.saw("ukf_update")
    else:
        # the transform itself (negative centre weight) has no valid covariance here
        ctx.saw("skipped:indefinite-transform")
    seed = int(rng.randint(1 << 30))
    u, v = (ctx.call("sample", "UKF", f.sample, N.T, random_state=seed) for f in (sq, kf))
    for i in (0, 1):
        ctx.close(u[i], np.ma.getdata(v[i]), (N.uz if i else N.ux) + np.abs(v[i]).max(), "ukf-sample",
                  "square-root UKF sample vs standard with the same seed", 1e-9, **det)
    ctx.saw("ukf")
    if N.n > 3:
        ctx.saw("ukf_n>3")
    if N.m > 1 and obs.any():
        ctx.saw("ukf_m>1")
    ctx.sig("ukf", N.signature(), mk)


def unscented_big(ctx, rng):
    unscented(ctx, rng, n=int(rng.randint(4, 9)), m=int(rng.randint(1, 7)), eps=0.05)


KINDS = {"linear": linear, "em": em_, "unscented": unscented, "unscented_big": unscented_big}
PLAN = {"quick": {"linear": 2500, "em": 900, "unscented": 1000, "unscented_big": 250},
        "thorough": {"linear": 30000, "em": 10000, "unscented": 12000, "unscented_big": 3000}}
REQUIRED = ["%s:%s" % (op, c) for op in ("filter", "update", "smooth", "loglik", "sample", "em")
            for c in ("CholeskyKalmanFilter", "BiermanKalmanFilter")] + [
                "ukf", "ukf_update", "ukf_n>3", "ukf_m>1", "correlated"]
ASSUMPTIONS = ["well-conditioned models (where the standard filters are themselves accurate); "
               "ill-conditioned ones are P10's subject"]
