"""P05: online updating reproduces batch filtering."""

import numpy as np

from .. import lincommon as lc, models, nlcommon as nl

RULE = ("random model, data and missing pattern replayed as a history of single updates, from a random "
        "starting point, each update choosing at random which parameters are passed explicitly; "
        "distinct by class, dimensions, time-varying subset, mask and argument choice; non-trivial "
        "when at least one observed row is fed online")

ARGS = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance",
            C="observation_matrix", d="observation_offset", R="observation_covariance")


def obs_form(ctx, rng, row, ok):
    """One row of observations in one of the documented forms."""
    data = np.array(np.ma.getdata(row), float)
    if len(data) == 1 and rng.rand() < 0.3:
        # a scalar series is also indexed to scalars
        ctx.saw("scalar_rows")
        if ok:
            return [float(data[0]), data[0], np.array(data[0]), np.ma.array(data[0])][rng.randint(4)]
        return [np.ma.masked, np.ma.array(data, mask=True)[0], np.ma.array(data[0], mask=True)][rng.randint(3)]
    if ok:
        k = rng.randint(5)
        if k == 0:
            return data
        if k == 1:
            return np.ma.array(data, mask=False)
        if k == 2:
            return data.tolist() if rng.rand() < 0.5 else tuple(data.tolist())
        if k == 3:
            return np.repeat(data, 3)[::3]
        return np.ma.array(data)
    k = rng.randint(4)
    if k == 0:
        return None
    if k == 1:
        return np.ma.array(data, mask=np.ma.getmaskarray(row).copy())
    if k == 2:
        return np.ma.array(np.full(len(data), np.nan), mask=True)
    return np.ma.masked_all(len(data))


def linear(ctx, rng, settled=False):
    cls = lc.pick_class(rng)
    if settled:
        M, Z, obs, mk = models.settled(rng, lc.TV[cls])
        ctx.saw("settled")
    else:
        M = models.lin(rng, tv_ok=lc.TV[cls], T=int(rng.choice([2, 3, 5, 9, 14])))
        Z, obs, mk = models.observations(rng, M)
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.25 and not settled else ((), {})
    ref = lc.Ref(M, Z, obs, smooth=False)
    if ref.Sc > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    kf = ctx.call("construct", cls, M.make, cls, omit, **extra)
    bm, bc = ctx.call("filter", cls + ".filter", kf.filter, Z)
    lc.check_filter(ctx, cls, M, ref, (bm, bc), "batch")
    s = int(rng.randint(0, M.T - 1))
    # the starting estimate may come from a different filter object or the library's own batch
    m, c = bm[s].copy(), bc[s].copy()
    mode = str(rng.choice(["needed", "all", "random"]))
    Zm = np.ma.asarray(Z)
    # a second filter whose stored constants are wrong for everything passed explicitly
    wrong = None
    if mode == "all":
        W = models.lin(rng, n=M.n, m=M.m, T=M.T, tv_ok=lc.TV[cls], scale=False)
        wrong = ctx.call("construct", cls, W.make, cls)
    for t in range(s + 1, M.T):
        kw = {}
        for k, a in ARGS.items():
            need = k in M.tv
            if need or mode == "all" or (mode == "random" and rng.rand() < 0.5):
                kw[a] = np.array(M.at(k, t - 1 if k in "AbQ" else t))
        o = obs_form(ctx, rng, Zm[t], obs[t])
        f = wrong if wrong is not None else kf
        m, c = ctx.call("update", cls + ".filter_update", f.filter_update, m, c, o, **kw)
        m = ctx.shape(m, (M.n,), "update", cls + ".filter_update mean")
        c = ctx.shape(c, (M.n, M.n), "update", cls + ".filter_update covariance")
        det = dict(model=M.describe(), Z=Z, t=t, start=s, passed=sorted(kw), mode=mode)
        ctx.close(c, bc[t], ref.cs[t], "update/cov", cls + ".filter_update covariance vs batch",
                  1e-8, **det)
        ctx.close(m, bm[t], ref.ms[t], "update/mean", cls + ".filter_update mean vs batch",
                  1e-8, **det)
        ctx.close(m, ref.fm[t], ref.ms[t], "update/exact", cls + ".filter_update mean vs exact",
                  1e-8, **det)
        ctx.saw("updates:" + cls)
        ctx.saw("missing_updates" if not obs[t] else "observed_updates")
    if mode == "all":
        ctx.saw("precedence")
    if obs[s + 1:].any():
        ctx.sig(cls, M.signature(), mk, mode)


def settled(ctx, rng):
    linear(ctx, rng, True)


def single(ctx, rng):
    """One overridden argument at a time; unspecified time-varying ones are refused."""
    cls = lc.pick_class(rng)
    M = models.lin(rng, tv_ok=(), T=2, scale=False)
    models.rescale(M, *models.scales(rng, 0.4))
    z = models.simulate(rng, M)[1][1]
    kf = ctx.call("construct", cls, M.make, cls)
    m, c = M.p["mu0"], M.p["P0"]
    key = str(rng.choice(list(ARGS)))
    W = models.rescale(models.lin(rng, n=M.n, m=M.m, T=2, tv_ok=(), scale=False), M.sx, M.sz)
    M2 = M.copy(**{key: W.p[key]})
    M2.T = 2
    # exact: condition a two-step model whose first row is missing
    Z = np.ma.array(np.vstack([np.zeros(M.m), z]), mask=[[1] * M.m, [0] * M.m])
    ref = lc.Ref(M2, Z, np.array([False, True]), smooth=False)
    if ref.Sc > lc.COND_MAX:
        return
    g = ctx.call("update-one", cls + ".filter_update", kf.filter_update, m.copy(), c.copy(), z,
                 **{ARGS[key]: W.p[key].copy()})
    det = dict(model=M.describe(), override={key: W.p[key]}, z=z)
    ctx.close(g[0], ref.fm[1], ref.ms[1], "update-one/" + key,
              "%s.filter_update with %s given: mean" % (cls, ARGS[key]), 1e-8, **det)
    ctx.close(g[1], ref.fc[1], ref.cs[1], "update-one/" + key,
              "%s.filter_update with %s given: covariance" % (cls, ARGS[key]), 1e-8, **det)
    # an all-zero override is still an override
    if key in ("b", "d", "A", "C"):
        M3 = M.copy(**{key: np.zeros_like(M.p[key])})
        M3.T = 2
        ref = lc.Ref(M3, Z, np.array([False, True]), smooth=False)
        if ref.Sc <= lc.COND_MAX:
            g = ctx.call("update-zero", cls + ".filter_update", kf.filter_update, m.copy(), c.copy(),
                         z, **{ARGS[key]: np.zeros_like(M.p[key])})
            ctx.close(g[0], ref.fm[1], ref.ms[1], "update-zero/" + key,
                      "%s.filter_update with %s = 0" % (cls, ARGS[key]), 1e-8, **det)
            ctx.saw("zero_override")
    # refusal: the stored parameter is time varying and is not given
    key = str(rng.choice(lc.TV[cls]))
    L = int(rng.randint(2, 5)) if rng.rand() < 0.8 else 1
    kf = ctx.call("construct", cls, M.copy(**{key: np.array([M.p[key]] * L)}).make, cls)
    o = z if rng.rand() < 0.7 else None
    ctx.raises(ValueError, "refuse/" + key,
               "%s.filter_update with time-varying %s unspecified" % (cls, key),
               kf.filter_update, m.copy(), c.copy(), o)
    g = ctx.call("update-given/" + key, cls, kf.filter_update, m.copy(), c.copy(), o,
                 **{ARGS[key]: M.p[key].copy()})
    ctx.check(np.isfinite(g[0]).all(), "update-given/" + key, "finite")
    ctx.saw("single:" + cls)
    ctx.saw("refused")
    ctx.sig("single", cls, M.n, M.m, key, L)


def unscented(ctx, rng):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", T=int(rng.choice([2, 3, 5, 8]))).units(rng)
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("skipped:reference")
        return
    kf = ctx.call("construct", cls, N.make, cls, rng)
    bm, bc = ctx.call("filter", cls + ".filter", kf.filter, Z)
    s = int(rng.randint(0, N.T - 1))
    m, c = bm[s].copy(), bc[s].copy()
    Zm = np.ma.asarray(Z)
    mode = str(rng.choice(["needed", "all", "random"]))
    f = kf
    if mode == "all":
        W = nl.NL(rng, cls != "UKF", T=N.T, n=N.n, m=N.m, tv=False)
        f = ctx.call("construct", cls, W.make, cls, rng)
    det = dict(model=N.describe(), Z=Z, start=s, mode=mode)
    for t in range(s + 1, N.T):
        kw = {}
        r = lambda: mode == "all" or (mode == "random" and rng.rand() < 0.5)  # noqa: E731
        if len(N.A) > 1 or N.tvf or r():
            kw["transition_function"] = N.lib_f(t - 1)
        if len(N.C) > 1 or N.tvg or r():
            kw["observation_function"] = N.lib_g(t)
        if r():
            kw["transition_covariance"] = N.Q.copy()
        if r():
            kw["observation_covariance"] = N.R.copy()
        o = obs_form(ctx, rng, Zm[t], obs[t])
        m, c = ctx.call("unscented-update", cls + ".filter_update", f.filter_update, m, c, o, **kw)
        m = ctx.shape(m, (N.n,), "unscented-update", cls + ".filter_update mean")
        c = ctx.shape(c, (N.n, N.n), "unscented-update", cls + ".filter_update covariance")
        sc, sm = max(N.ux**2, np.abs(bc[:t + 1]).max()), max(N.ux, np.abs(bm[:t + 1]).max())
        ctx.close(c, bc[t], sc, "unscented-update/cov",
                  cls + ".filter_update covariance vs batch", 1e-8, t=t, passed=sorted(kw), **det)
        ctx.close(m, bm[t], sm, "unscented-update/mean",
                  cls + ".filter_update mean vs batch", 1e-8, t=t, passed=sorted(kw), **det)
        ctx.close(m, ref[0][t], sm, "unscented-update/exact",
                  cls + ".filter_update mean vs reference", 1e-8, t=t, passed=sorted(kw), **det)
        ctx.saw("updates:" + cls)
    if mode == "all":
        ctx.saw("precedence:unscented")
    # refusal of unspecified time-varying functions
    if N.tvf and len(N.A) > 1 or N.tvg and len(N.C) > 1:
        ctx.counts["library_calls"] += 1
        try:
            kf.filter_update(bm[0].copy(), bc[0].copy(), np.zeros(N.m))
        except Exception:  # noqa: BLE001
            ctx.saw("refused:unscented")
        else:
            ctx.violation("refuse/functions", cls + ".filter_update chose among several functions")
    if obs[s + 1:].any():
        ctx.sig(cls, N.signature(), mk, mode)


KINDS = {"linear": linear, "settled": settled, "single": single, "unscented": unscented}
PLAN = {"quick": {"linear": 2500, "single": 1500, "unscented": 1200, "settled": 300},
        "thorough": {"linear": 30000, "single": 20000, "unscented": 15000, "settled": 4000}}
REQUIRED = (["updates:" + c for c in models.LINEAR + nl.UNSC] + ["single:" + c for c in models.LINEAR]
            + ["precedence", "precedence:unscented", "refused", "refused:unscented",
               "missing_updates", "observed_updates", "zero_override", "settled", "scalar_rows"])
ASSUMPTIONS = ["well-conditioned models",
               "refusal of unspecified time-varying functions: any exception is accepted"]
