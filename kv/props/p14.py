"""P14: time-varying parameters act at exactly their own time step."""

import numpy as np

from .. import emcommon as em, lincommon as lc, models, nlcommon as nl

RULE = ("pairs of executions of the same filter that differ in one entry of one time-varying parameter, "
        "in surplus entries, in the future data, in constant-vs-repeated form, or in the starting row; "
        "distinct by class, kind of pair, parameter, position of the entry relative to the end, "
        "dimensions and mask")


def same(ctx, a, b, scale, mech, what, tol=1e-10, **det):
    ctx.close(a, b, scale, mech, what, tol, **det)


def base_case(rng, T=None, cls=None):
    cls = cls or lc.pick_class(rng)
    M = models.lin(rng, T=T or int(rng.choice([2, 3, 5, 8])), tv_ok=lc.TV[cls], tvp=1.0)
    Z, obs, mk = models.observations(rng, M)
    return cls, M, Z, obs, mk


def entry(ctx, rng):
    """Perturb entry i of one time-varying parameter."""
    cls, M, Z, obs, mk = base_case(rng)
    key = str(rng.choice(lc.TV[cls]))
    T, n, m = M.T, M.n, M.m
    need = T - 1 if key in "AbQ" else T
    extra = int(rng.randint(0, 3))
    if M.p[key].ndim == (1 if key in "bd" else 2):
        M.p[key] = np.array([M.p[key]] * (need + extra))
    elif len(M.p[key]) < need + extra:
        M.p[key] = np.concatenate([M.p[key], M.p[key][-1:].repeat(extra, axis=0)])
    M.tv.add(key)
    L = len(M.p[key])
    i = int(rng.randint(L))
    v = M.p[key].copy()
    if key in "QR":
        v[i] = v[i] * rng.choice([0.2, 7.0]) + models.spd(rng, v.shape[1], scale=np.abs(v[i]).max())
        v[i] = 0.5 * (v[i] + v[i].T)
    else:
        v[i] = v[i] + rng.randn(*v[i].shape) * max(np.abs(v).max(), 1e-300)
    W = M.copy(**{key: v})
    W.T = T
    r1, r2 = lc.Ref(M, Z, obs), lc.Ref(W, Z, obs)
    if max(r1.Sc, r2.Sc) > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    a, b = (ctx.call("construct", cls, X.make, cls) for X in (M, W))
    fa, fb = (ctx.call("filter", cls + ".filter", k.filter, Z) for k in (a, b))
    first = i + 1 if key in "AbQ" else i
    det = dict(model=M.describe(), key=key, entry=i, new=v[i], Z=Z)
    q = min(first, T)
    same(ctx, fb[0][:q], fa[0][:q], r1.ms[:q, None], "entry/early",
         "%s.filter mean before step %d, %s[%d] changed" % (cls, first, key, i), **det)
    same(ctx, fb[1][:q], fa[1][:q], r1.cs[:q, None, None], "entry/early",
         "%s.filter covariance before step %d, %s[%d] changed" % (cls, first, key, i), **det)
    lc.check_filter(ctx, cls, W, r2, fb, "entry/effect", Z=Z, key=key, entry=i)
    if max(r1.cond_P, r2.cond_P) < lc.COND_MAX:
        lc.check_smooth(ctx, cls, W, r2, ctx.call("smooth", cls + ".smooth", b.smooth, Z),
                        "entry/smooth-effect", Z=Z, key=key, entry=i)
        ctx.saw("entry_smoothed")
    if r2.D is not None:
        ctx.close(float(ctx.call("loglik", cls, b.loglikelihood, Z)), r2.ll,
                  max(1.0, np.abs(r2.D.loglik_parts()).sum(), obs.sum() * m), "entry/loglik-effect",
                  "%s.loglikelihood after %s[%d] changed" % (cls, key, i), 1e-9, **det)
    if i >= need or (key in "CdR" and not obs[i]):
        # surplus entry, or an observation parameter of a missing row: no effect anywhere
        same(ctx, fb[0], fa[0], r1.ms[:, None], "surplus/filter",
             "%s.filter, unused %s[%d] changed" % (cls, key, i), **det)
        sa, sb = (ctx.call("smooth", cls + ".smooth", k.smooth, Z) for k in (a, b))
        if r1.cond_P < lc.COND_MAX:
            same(ctx, sb[0], sa[0], r1.sms, "surplus/smooth",
                 "%s.smooth mean, unused %s[%d] changed" % (cls, key, i), **det)
            same(ctx, sb[1], sa[1], r1.scs, "surplus/smooth",
                 "%s.smooth covariance, unused %s[%d] changed" % (cls, key, i), **det)
        la, lb = (float(ctx.call("loglik", cls, k.loglikelihood, Z)) for k in (a, b))
        same(ctx, lb, la, max(1.0, np.abs(r1.D.loglik_parts()).sum() if r1.D else abs(la)), "surplus/loglik",
             "%s.loglikelihood, unused %s[%d] changed" % (cls, key, i), **det)
        if T > 1 and obs.any():
            ev = [v_ for v_ in em.EMV if em.KEY[v_] not in M.tv and rng.rand() < 0.6]
            for k in (a, b):
                ctx.call("em", cls + ".em", k.em, Z, n_iter=1, em_vars=ev)
            for at in ev:
                x, y = getattr(a, at), getattr(b, at)
                if np.isfinite(x).all():
                    same(ctx, y, x, max(np.abs(x).max(), 1e-300), "surplus/em",
                         "%s.em %s, unused %s[%d] changed" % (cls, at, key, i), 1e-8, **det)
        ctx.saw("surplus:" + ("row" if i < need else "tail"))
    else:
        ctx.saw("entry:" + key)
    # sampling: the prefix drawn before the entry acts is unchanged
    seed = int(rng.randint(1 << 30))
    x, y = (ctx.call("sample", cls + ".sample", X.make(cls).sample, T, random_state=seed) for X in (M, W))
    qs, qo = (min(i + 1, T), min(i + 1, T)) if key in "AbQ" else (T, min(i, T))
    if i >= need:
        qs = qo = T
    for name, u, w, q in (("states", x[0], y[0], qs), ("observations", x[1], y[1], qo)):
        u, w = np.ma.getdata(u), np.ma.getdata(w)
        same(ctx, w[:q], u[:q], np.abs(u).max() + 1e-300, "entry/sample",
             "%s.sample %s before %s[%d] acts" % (cls, name, key, i), **det)
    ctx.sig("entry", cls, key, i - need, n, m, mk)


def repeat(ctx, rng):
    """A constant and its repetition are the same model."""
    cls = lc.pick_class(rng)
    M = models.lin(rng, T=int(rng.choice([1, 2, 3, 6, 9, 16])), tv_ok=(), exact_ok=cls == "KalmanFilter")
    Z, obs, mk = models.observations(rng, M)
    r = lc.Ref(M, Z, obs)
    if r.Sc > lc.COND_MAX:
        return
    keys = [k for k in lc.TV[cls] if rng.rand() < 0.5] or [str(rng.choice(lc.TV[cls]))]
    W = M.copy(**{k: np.array([M.p[k]] * max(1, (M.T - 1 if k in "AbQ" else M.T) + rng.randint(0, 4)))
                  for k in keys})
    W.T = M.T
    a, b = (ctx.call("construct", cls, X.make, cls) for X in (M, W))
    det = dict(model=M.describe(), repeated=keys, Z=Z)
    f, g = (ctx.call("filter", cls + ".filter", k.filter, Z) for k in (a, b))
    same(ctx, g[0], f[0], r.ms[:, None], "repeat/filter", cls + ".filter mean, repeated constants", **det)
    same(ctx, g[1], f[1], r.cs[:, None, None], "repeat/filter", cls + ".filter cov, repeated constants", **det)
    if r.cond_P < lc.COND_MAX:
        f, g = (ctx.call("smooth", cls + ".smooth", k.smooth, Z) for k in (a, b))
        same(ctx, g[0], f[0], r.sms, "repeat/smooth", cls + ".smooth mean, repeated constants", **det)
        same(ctx, g[1], f[1], r.scs, "repeat/smooth", cls + ".smooth cov, repeated constants", **det)
    f, g = (float(ctx.call("loglik", cls, k.loglikelihood, Z)) for k in (a, b))
    same(ctx, g, f, max(1.0, np.abs(r.D.loglik_parts()).sum() if r.D else abs(f)), "repeat/loglik",
         cls + ".loglikelihood, repeated constants", **det)
    seed = int(rng.randint(1 << 30))
    f, g = (ctx.call("sample", cls, k.sample, M.T, random_state=seed) for k in (a, b))
    for i in (0, 1):
        u = np.ma.getdata(f[i])
        same(ctx, np.ma.getdata(g[i]), u, np.abs(u).max() + 1e-300, "repeat/sample",
             cls + ".sample, repeated constants", **det)
    if obs.sum() > M.n + M.m + 2 and r.cond_P < 1e3 and r.Sc < 1e3:
        # parameters that are not estimated may be repeated
        free = [v for v in em.EMV if em.KEY[v] not in keys]
        ev = [v for v in free if rng.rand() < 0.5]
        for _ in (1, 2):
            for k in (a, b):
                ctx.call("em", cls, k.em, Z, n_iter=1, em_vars=ev)
            for v in ev:
                x, y = (np.asarray(getattr(k, v), float) for k in (a, b))
                if np.isfinite(x).all():
                    key = em.KEY[v]
                    # a vector may come out as nothing but rounding: its noise gives the scale
                    noise = np.sqrt(np.abs(M.p[dict(mu0="P0", b="Q", d="R")[key]]).max()) if key in ("mu0", "b", "d") else 0
                    same(ctx, y, x, max(np.abs(x).max(), 1e-3 * np.abs(M.p[key]).max(), 1e-3 * noise), "repeat/em",
                         "%s.em %s, repeated constants" % (cls, v), 1e-6, **det)
                    ctx.saw("repeat_em")
            if not ev or em.degenerate(em.params_of(a, M)):
                break
    ctx.saw("repeat:" + cls)
    ctx.sig("repeat", cls, "".join(sorted(keys)), M.n, M.m, M.T, mk)


def future(ctx, rng):
    """Filtered estimates at t ignore rows after t; and restarting at s reproduces the tail."""
    cls, M, Z, obs, mk = base_case(rng, int(rng.choice([3, 5, 8])))
    r = lc.Ref(M, Z, obs)
    if r.Sc > lc.COND_MAX:
        return
    T = M.T
    kf = ctx.call("construct", cls, M.make, cls)
    f = ctx.call("filter", cls + ".filter", kf.filter, Z)
    det = dict(model=M.describe(), Z=Z)
    q = int(rng.randint(1, T))
    z2 = np.ma.array(np.ma.getdata(Z).copy(), mask=np.ma.getmaskarray(Z).copy())
    z2.data[q:] = z2.data[q:] * -3 + M.sz * rng.randn(T - q, M.m) * 10
    if rng.rand() < 0.5:
        z2.mask[q:] = rng.rand(T - q, M.m) < 0.3
    g = ctx.call("filter", cls + ".filter", kf.filter, z2)
    for i, s in ((0, r.ms[:q, None]), (1, r.cs[:q, None, None])):
        same(ctx, g[i][:q], f[i][:q], s, "future", cls + ".filter before changed rows", **det)
    h = ctx.call("filter", cls + ".filter", kf.filter, Z[:q])
    for i, s in ((0, r.ms[:q, None]), (1, r.cs[:q, None, None])):
        same(ctx, h[i], f[i][:q], s, "prefix", cls + ".filter of a prefix", **det)
    ctx.saw("future:" + cls)
    # restart
    s = int(rng.randint(1, T))
    p = {}
    for k, v in M.p.items():
        tv = v.ndim > (1 if k in ("b", "d", "mu0") else 2)
        p[k] = v[s:] if tv else v
        if tv and len(p[k]) == 0:
            p[k] = v[-1:]
    p["mu0"], p["P0"] = r.pm[s], 0.5 * (r.pc[s] + r.pc[s].T)
    W = models.Lin(M.n, M.m, T - s, p, M.tv, M.tags)
    w = ctx.call("construct", cls, W.make, cls)
    g = ctx.call("restart", cls + ".filter", w.filter, Z[s:])
    same(ctx, g[0], f[0][s:], r.ms[s:, None], "restart/filter", cls + ".filter restarted at %d" % s, 1e-9, **det)
    same(ctx, g[1], f[1][s:], r.cs[s:, None, None], "restart/filter", cls + ".filter restarted at %d" % s,
         1e-9, **det)
    if r.cond_P < lc.COND_MAX:
        u = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
        v = ctx.call("restart", cls + ".smooth", w.smooth, Z[s:])
        same(ctx, v[0], u[0][s:], r.sms, "restart/smooth", cls + ".smooth restarted at %d" % s, 1e-8, **det)
        same(ctx, v[1], u[1][s:], r.scs, "restart/smooth", cls + ".smooth restarted at %d" % s, 1e-8, **det)
    la = float(ctx.call("loglik", cls, kf.loglikelihood, Z))
    lb = float(ctx.call("loglik", cls, w.loglikelihood, Z[s:]))
    lcx = float(ctx.call("loglik", cls, kf.loglikelihood, Z[:s]))
    parts = np.abs(r.D.loglik_parts()).sum() if r.D else abs(la)
    same(ctx, lb + lcx, la, max(1.0, parts), "restart/loglik", cls + ".loglikelihood split at %d" % s, 1e-9, **det)
    ctx.saw("restart:" + cls)
    ctx.sig("restart", cls, M.signature(), s, mk)


def unscented(ctx, rng):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", T=int(rng.choice([2, 3, 5, 8])), tv=True, tvlen=int(rng.randint(0, 3))).units(rng)
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("skipped:indefinite-transform")
        return
    T = N.T
    kf = ctx.call("construct", cls, N.make, cls, rng)
    f = ctx.call("filter", cls + ".filter", kf.filter, Z)
    s = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
    sm, sc = max(N.ux, np.abs(ref[0]).max()), max(N.ux**2, np.abs(ref[1]).max())
    which = str(rng.choice([w for w, L in (("f", N.A), ("g", N.C)) if len(L) > 1] or ["-"]))
    det = dict(model=N.describe(), Z=Z, which=which)
    if which != "-":
        L = N.b if which == "f" else N.d
        i = int(rng.randint(len(L)))
        need = T - 1 if which == "f" else T
        old = L[i]
        L[i] = old + 0.5 * rng.randn(len(old))
        r2 = N.reference(Z, obs)
        if r2 is not None or i >= need:
            g = ctx.call("filter", cls + ".filter", kf.filter, Z)
            q = min(T, i + 1 if which == "f" else i)
            if i >= need or (which == "g" and not obs[i]):
                q = T
                u = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
                same(ctx, u[0], s[0], sm, "ukf-surplus", cls + ".smooth, unused function changed", **det)
                same(ctx, u[1], s[1], sc, "ukf-surplus", cls + ".smooth, unused function changed", **det)
                ctx.saw("ukf_surplus")
            same(ctx, g[0][:q], f[0][:q], sm, "ukf-entry", cls + ".filter before function %d" % i, **det)
            same(ctx, g[1][:q], f[1][:q], sc, "ukf-entry", cls + ".filter before function %d" % i, **det)
            if r2 is not None:
                nl.compare(ctx, N, g, r2[0], r2[1], "ukf-effect", cls + ".filter after a change", Z=Z)
                u = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
                nl.compare(ctx, N, u, r2[2], r2[3], "ukf-smooth-effect", cls + ".smooth after a change", Z=Z)
            ctx.saw("ukf_entry:" + which)
            seed = int(rng.randint(1 << 30))
            y = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=seed)
            L[i] = old
            x = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=seed)
            qs, qo = (min(i + 1, T),) * 2 if which == "f" else (T, min(i, T))
            for name, a, b, q in (("states", x[0], y[0], qs), ("observations", x[1], y[1], qo)):
                a, b = np.ma.getdata(a)[:q], np.ma.getdata(b)[:q]
                same(ctx, b, a, max(N.ux if name == "states" else N.uz, np.abs(a).max() if a.size else 0), "ukf-sample",
                     "%s.sample %s before function %d" % (cls, name, i), **det)
        L[i] = old
        ctx.sig("ukf-entry", cls, which, i - need, N.n, N.m, mk)
    # future rows, prefixes
    q = int(rng.randint(1, T))
    h = ctx.call("filter", cls + ".filter", kf.filter, Z[:q])
    same(ctx, h[0], f[0][:q], sm, "ukf-prefix", cls + ".filter of a prefix", **det)
    same(ctx, h[1], f[1][:q], sc, "ukf-prefix", cls + ".filter of a prefix", **det)
    # repeated functions
    C = nl.NL(rng, cls != "UKF", T=T, n=N.n, m=N.m, tv=False)
    C.rescale(N.sx, N.sz)
    rc = C.reference(Z, obs)
    if rc is not None:
        F, G = C.funcs()
        over = {}
        if rng.rand() < 0.7:
            over["transition_functions"] = [F] * max(1, T - 1 + rng.randint(0, 3))
        if rng.rand() < 0.7:
            over["observation_functions"] = [G] * (T + rng.randint(0, 3))
        a = ctx.call("construct", cls, C.make, cls)
        b = ctx.call("construct", cls, C.make, cls, **over)
        for op, k in (("filter", 0), ("smooth", 2)):
            u, v = (ctx.call("ukf-repeat", cls + "." + op, getattr(x, op), Z) for x in (a, b))
            for j in (0, 1):
                same(ctx, v[j], u[j], max(N.ux**(j + 1), np.abs(rc[k + j]).max()), "ukf-repeat",
                     "%s.%s, repeated functions" % (cls, op), repeated=sorted(over), **det)
        ctx.saw("ukf_repeat:" + cls)
    # restart (additive noise: the step depends on the moments only)
    if N.additive:
        s_ = int(rng.randint(1, T))
        ref2 = N.reference(np.ma.array(Z), np.where(np.arange(T) < s_, obs, False))
        if ref2 is not None:
            pm, pc = ref2[0][s_], ref2[1][s_]
            F, G = N.funcs()
            over = dict(initial_state_mean=pm.copy(), initial_state_covariance=0.5 * (pc + pc.T))
            if len(N.A) > 1:
                over["transition_functions"] = list(F[s_:]) or [F[-1]]
            if len(N.C) > 1:
                over["observation_functions"] = list(G[s_:])
            b = ctx.call("construct", cls, N.make, cls, **over)
            g = ctx.call("ukf-restart", cls + ".filter", b.filter, Z[s_:])
            same(ctx, g[0], f[0][s_:], sm, "ukf-restart", cls + ".filter restarted", 1e-8, **det)
            same(ctx, g[1], f[1][s_:], sc, "ukf-restart", cls + ".filter restarted", 1e-8, **det)
            ctx.saw("ukf_restart:" + cls)


def short(ctx, rng):
    """A series with fewer entries than steps is refused: not repeated, not continued."""
    if rng.rand() < 0.65:
        cls = lc.pick_class(rng)
        M = models.lin(rng, T=int(rng.choice([3, 4, 6, 10])), tv=set(), scale=False)
        key = str(rng.choice(list(lc.TV[cls])))
        need = M.T - 1 if key in "AbQ" else M.T
        L = int(rng.choice([need - 1, rng.randint(1, need)]))
        W = M.copy(**{key: np.array([M.p[key]] * L)})
        kf = ctx.call("construct", cls, W.make, cls)
        z = models.simulate(rng, M)[1]
        T = M.T
        ops = ["filter", "smooth", "loglikelihood", "sample", "em"]
    else:
        cls = nl.pick(rng)
        N = nl.NL(rng, cls != "UKF", T=int(rng.choice([4, 5, 8])), tv=False)
        T, key = N.T, str(rng.choice(["f", "g"]))
        need = T - 1 if key == "f" else T
        L = int(rng.choice([need - 1, rng.randint(2, need)]))
        fs, gs = N.lib_f(0), N.lib_g(0)
        fs, gs = ([fs] * L, gs) if key == "f" else (fs, [gs] * L)
        kf = ctx.call("construct", cls, models.cls_of(cls), fs, gs, N.Q, N.R, N.mu0, N.P0)
        z = rng.randn(T, N.m)
        ops = ["filter", "smooth", "sample"]
    op = str(rng.choice(ops))
    args, kw = ((T,), dict(random_state=1)) if op == "sample" else ((z,), {})
    if op == "em":
        kw = dict(n_iter=1, em_vars=["initial_state_mean"])
    ctx.raises(Exception, "short", "%s.%s with %d entries of %s for %d steps" % (cls, op, L, key, T), getattr(kf, op),
               *args, **kw)
    ctx.saw("short:" + cls)
    ctx.sig("short", cls, op, key, L, T)


KINDS = {"entry": entry, "repeat": repeat, "future": future, "unscented": unscented, "short": short}
PLAN = {"quick": {"entry": 2500, "repeat": 1200, "future": 1200, "unscented": 900, "short": 900},
        "thorough": {"entry": 30000, "repeat": 15000, "future": 15000, "unscented": 10000, "short": 6000}}
REQUIRED = (["entry:" + k for k in "AbQCdR"] + ["surplus:row", "surplus:tail"]
            + ["%s:%s" % (k, c) for k in ("repeat", "future", "restart") for c in models.LINEAR]
            + ["short:" + c for c in models.LINEAR + nl.UNSC]
            + ["ukf_entry:f", "ukf_entry:g", "ukf_surplus", "repeat_em"]
            + ["ukf_repeat:" + c for c in nl.UNSC] + ["ukf_restart:AUKF", "ukf_restart:SqrtAUKF"])
ASSUMPTIONS = ["well-conditioned models",
               "seeded sampling consumes the same number of random numbers whatever the parameter values"]
