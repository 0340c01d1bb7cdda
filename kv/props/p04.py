"""P04: missing observations carry no information and are otherwise harmless."""

import numpy as np

from .. import lincommon as lc, models, nlcommon as nl

RULE = ("random linear or nonlinear model with a missing pattern (full rows, single components, "
        "first/last/blocks/all) and adversarial junk (NaN, inf, huge) underneath; distinct by "
        "class, operation, dimensions and pattern; non-trivial when at least one row is missing")

JUNK = (0.0, 1e6, -1e300, np.nan, np.inf, -np.inf)


def junked(rng, Z, k, partial=True):
    """Same observed rows, different content in every row with a masked component."""
    z = np.array(np.ma.getdata(Z), dtype=float)
    rows = k.any(axis=1)
    k2 = k.copy()
    for t in np.flatnonzero(rows):
        z[t] = rng.randn(k.shape[1]) * 50
        if rng.rand() < 0.7:
            # another selection of masked components, at least one
            k2[t] = rng.rand(k.shape[1]) < 0.5
            k2[t, rng.randint(k.shape[1])] = True
        z[t][k2[t]] = JUNK[rng.randint(len(JUNK))]
    return np.ma.array(z, mask=k2)


def pattern(rng, T, m):
    kind = str(rng.choice(["rows", "partial", "first", "last", "block", "alternate", "all",
                           "firstlast", "onecomp"]))
    return models.mask(rng, T, m, kind)


def linear(ctx, rng):
    cls = lc.pick_class(rng)
    M = models.lin(rng, tv_ok=lc.TV[cls])
    z = models.simulate(rng, M)[1]
    kind, k = pattern(rng, M.T, M.m)
    Z = np.ma.array(z, mask=k)
    obs = ~k.any(axis=1)
    ref = lc.Ref(M, Z, obs)
    if max(ref.Sc, ref.cond_P) > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    kf = ctx.call("construct", cls, M.make, cls)
    Z2 = junked(rng, Z, k)
    if M.m == 1 and rng.rand() < 0.5:
        # a 1-d masked series
        Z2 = Z2[:, 0]
        ctx.saw("flat")
    if rng.rand() < 0.2:
        Z2 = Z2.copy()
        Z2.harden_mask()
        Z2.fill_value = float(rng.choice([0.0, -1.0, np.nan]))
        ctx.saw("hard mask")
    det = dict(Z1=Z, Z2=Z2)
    f1 = ctx.call("filter", cls + ".filter", kf.filter, Z)
    lc.check_filter(ctx, cls, M, ref, f1, "filter-missing", **det)
    f2 = ctx.call("filter", cls + ".filter", kf.filter, Z2)
    lc.check_filter(ctx, cls, M, ref, f2, "filter-junk", **det)
    s2 = ctx.call("smooth", cls + ".smooth", kf.smooth, Z2)
    lc.check_smooth(ctx, cls, M, ref, s2, "smooth-junk", **det)
    parts = ref.D.loglik_parts() if ref.D is not None else np.array([ref.ll])
    l2 = ctx.call("loglik", cls + ".loglikelihood", kf.loglikelihood, Z2)
    ctx.close(float(l2), ref.ll, np.abs(parts).sum() + M.m, "loglik-junk",
              cls + ".loglikelihood with junk under the mask", 1e-9, model=M.describe(), **det)
    ctx.saw("linear:" + cls)
    ctx.saw("missing_rows", int((~obs).sum()))
    ctx.saw("partial_rows", int((k.any(axis=1) & ~k.all(axis=1)).sum()))
    if (~obs).any():
        ctx.sig(cls, M.signature(), kind)
    # trailing missing rows change nothing before them (forecasting)
    if not M.tv:
        e = int(rng.randint(1, 4))
        ext = np.ma.array(np.concatenate([np.ma.getdata(Z2).reshape(M.T, M.m), np.full((e, M.m), np.nan)]),
                          mask=np.concatenate([np.ma.getmaskarray(Z2).reshape(M.T, M.m), np.ones((e, M.m), bool)]))
        f3 = ctx.call("filter", cls + ".filter(+missing)", kf.filter, ext)
        s3 = ctx.call("smooth", cls + ".smooth(+missing)", kf.smooth, ext)
        l3 = ctx.call("loglik", cls + ".loglikelihood(+missing)", kf.loglikelihood, ext)
        ctx.check(len(f3[0]) == M.T + e, "forecast/shape", "one estimate per row")
        lc.check_filter(ctx, cls, M, ref, (f3[0][:M.T], f3[1][:M.T]), "forecast-filter", **det)
        M4 = M.copy(); M4.T = M.T + e
        ref4 = lc.Ref(M4, ext, np.concatenate([obs, np.zeros(e, bool)]))
        lc.check_filter(ctx, cls, M4, ref4, f3, "forecast", **det)
        if max(ref4.Sc, ref4.cond_P) <= lc.COND_MAX:
            lc.check_smooth(ctx, cls, M4, ref4, s3, "forecast-smooth", **det)
        ctx.close(float(l3), float(l2), np.abs(parts).sum() + M.m, "forecast-loglik",
                  "loglikelihood with trailing missing rows", 1e-9)
        ctx.saw("forecast")


def em(ctx, rng):
    cls = lc.pick_class(rng)
    M = models.lin(rng, T=int(rng.choice([8, 14, 25])), n=int(rng.randint(1, 4)),
                   m=int(rng.randint(1, 4)), tv_ok=(), scale=False)
    models.rescale(M, *models.scales(rng, 0.4))
    z = models.simulate(rng, M)[1]
    kind, k = models.mask(rng, M.T, M.m, str(rng.choice(["rows", "partial", "first", "last",
                                                        "alternate", "onecomp"])))
    if k.any(axis=1).sum() > M.T - 4:
        return
    Z = np.ma.array(z, mask=k)
    Z2 = junked(rng, Z, k)
    allv = list(models.PARAMS)
    ev = "all" if rng.rand() < 0.4 else [v for v in allv if rng.rand() < 0.5]
    n_iter = int(rng.randint(1, 4))
    r = []
    for X in (Z, Z2):
        kf = ctx.call("construct", cls, M.make, cls)
        ctx.call("em", cls + ".em", kf.em, X, n_iter=n_iter, em_vars=ev)
        r.append({v: np.asarray(getattr(kf, v), float) for v in allv})
    v_short = {v: k for k, v in models.SHORT.items()}
    for v in allv:
        unit = np.abs(M.p[v_short[v]]).max() if v_short[v] in "QRP0" else M.sx if v_short[v] in ("b", "mu0") else \
            M.sz if v_short[v] == "d" else 1e-300
        s = max(np.abs(r[0][v]).max(), 1e-12 * unit)
        ctx.check(np.isfinite(r[1][v]).all(), "em-junk/" + v, "EM with junk under the mask: finite %s" % v)
        ctx.close(r[1][v], r[0][v], s, "em-junk/" + v,
                  "%s.em(%s) must not depend on values under the mask: %s" % (cls, ev, v), 1e-8,
                  model=M.describe(), Z1=Z, Z2=Z2)
    ctx.saw("em:" + cls)
    ctx.sig("em", cls, M.n, M.m, kind, ev if ev == "all" else len(ev), n_iter)


def unscented(ctx, rng):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", T=int(rng.choice([1, 2, 3, 5, 8]))).units(rng)
    z = N.simulate(rng)[1]
    kind, k = pattern(rng, N.T, N.m)
    Z = np.ma.array(z, mask=k)
    obs = ~k.any(axis=1)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("skipped:reference")
        return
    kf = ctx.call("construct", cls, N.make, cls, rng)
    Z2 = junked(rng, Z, k)
    for X, tag in ((Z, "missing"), (Z2, "junk")):
        f = ctx.call("filter", cls + ".filter", kf.filter, X)
        nl.compare(ctx, N, f, ref[0], ref[1], "unscented-filter-" + tag, cls + ".filter", 1e-8,
                   Z1=Z, Z2=Z2)
        s = ctx.call("smooth", cls + ".smooth", kf.smooth, X)
        nl.compare(ctx, N, s, ref[2], ref[3], "unscented-smooth-" + tag, cls + ".smooth", 1e-8,
                   Z1=Z, Z2=Z2)
    ctx.saw("unscented:" + cls)
    if (~obs).any():
        ctx.sig(cls, N.signature(), kind)


def update(ctx, rng):
    """filter_update(None) = fully masked = partially masked = pure prediction."""
    if rng.rand() < 0.5:
        cls = lc.pick_class(rng)
        M = models.lin(rng, T=2, tv_ok=(), scale=True)
        kf = ctx.call("construct", cls, M.make, cls)
        x, P = M.p["mu0"], M.p["P0"]
        A = M.p["A"]
        em_, ec = A.dot(x) + M.p["b"], A.dot(P).dot(A.T) + M.p["Q"]
        sm = max(np.abs(x).max(), np.abs(em_).max(), np.sqrt(np.abs(ec).max()))
        m, n = M.m, M.n
        det = dict(model=M.describe())
    else:
        cls = nl.pick(rng)
        N = nl.NL(rng, cls != "UKF", T=2, tv=False).units(rng)
        kf = ctx.call("construct", cls, N.make, cls, rng)
        x, P = N.mu0, N.P0
        r = N.reference(np.zeros((2, N.m)), np.zeros(2, bool))
        if r is None:
            return
        em_, ec = r[0][1], r[1][1]
        sm = max(N.ux, np.abs(em_).max())
        m, n = N.m, N.n
        det = dict(model=N.describe())
    part = np.ma.array(rng.randn(m), mask=np.zeros(m, bool))
    j = rng.randint(m)
    part[j] = np.ma.masked
    part.data[j] = JUNK[rng.randint(len(JUNK))]
    forms = {"None": None, "masked": np.ma.array(np.full(m, np.nan), mask=True), "partial": part,
             "ma.masked_all": np.ma.masked_all(m)}
    for name, o in forms.items():
        g = ctx.call("update-" + name, cls + ".filter_update(%s)" % name, kf.filter_update,
                     x.copy(), P.copy(), o)
        gm = ctx.shape(g[0], (n,), "update-" + name, cls + ".filter_update mean")
        gc = ctx.shape(g[1], (n, n), "update-" + name, cls + ".filter_update covariance")
        ctx.close(gm, em_, sm, "update-" + name + "/mean",
                  cls + ".filter_update with a missing observation (%s): mean" % name, 1e-8, **det)
        ctx.close(gc, ec, np.abs(ec).max(), "update-" + name + "/cov",
                  cls + ".filter_update with a missing observation (%s): covariance" % name,
                  1e-8, **det)
    # omitted altogether
    g = ctx.call("update-omitted", cls + ".filter_update()", kf.filter_update, x.copy(), P.copy())
    ctx.close(np.asarray(g[0]), em_, sm, "update-omitted/mean", cls + ".filter_update()", 1e-8, **det)
    ctx.saw("update:" + cls)
    ctx.sig("update", cls, n, m)


KINDS = {"linear": linear, "em": em, "unscented": unscented, "update": update}
PLAN = {"quick": {"linear": 2400, "em": 300, "unscented": 700, "update": 500},
        "thorough": {"linear": 30000, "em": 4000, "unscented": 9000, "update": 6000}}
REQUIRED = (["linear:" + c for c in models.LINEAR] + ["unscented:" + c for c in nl.UNSC]
            + ["update:" + c for c in models.LINEAR + nl.UNSC]
            + ["em:" + c for c in models.LINEAR] + ["partial_rows", "missing_rows", "forecast", "flat", "hard mask"])
ASSUMPTIONS = ["well-conditioned models; NaN/inf only underneath a mask"]
