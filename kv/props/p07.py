"""P07: EM estimates satisfy the documented M-step equations over exact moments."""

import numpy as np

from .. import emcommon as em, lincommon as lc, models

RULE = ("random model (with time-varying parameters), data, missing pattern and subset of estimated "
        "parameters; one iteration (or one more from the reached parameters) compared with the "
        "documented closed forms over independently computed exact moments; distinct by class, "
        "dimensions, horizon, subset, time-varying set and mask")


def compare(ctx, cls, M, Z, obs, keys, got, mom, what, mk):
    """got: Lin holding the filter's parameters after one iteration from M."""
    r, x, V, P = mom
    new = em.mstep(M, Z, obs, keys, mom)
    T = M.T
    Exx = V + x[:, :, None] * x[:, None, :]
    z = np.ma.getdata(Z).reshape(T, M.m)
    zs = np.abs(z[obs]).max() if obs.any() else 1.0
    det = dict(model=M.describe(), Z=Z, estimated=sorted(keys))
    xs = max(r.sms, 1e-300)
    checked = 0
    amp = 1.0
    if "C" in keys and obs.any():
        amp *= np.linalg.cond(Exx[obs].sum(axis=0))
    ampA = 1.0
    if "A" in keys and T > 1:
        ampA = np.linalg.cond(Exx[:-1].sum(axis=0))
    if max(amp, ampA) > 1e5:
        ctx.saw("skipped:regression")
        return 0
    for k in sorted(keys):
        if k in "AQb" and T == 1 or k in "CRd" and not obs.any():
            ctx.saw("undefined")
            continue
        ref = new[k]
        scale = np.abs(ref).max()
        # intermediate magnitudes that cancel in the estimate
        if k in "CdR":
            d = np.abs(M.p["d"]).max()
            Cm = max(np.abs(new["C"]).max(), np.abs(M.p["C"]).max())
            base = max(zs, d, Cm * xs)
            a = max(amp, 1.0) ** 0.5
            scale = max(scale, {"C": base / xs * a, "d": base * a, "R": (base * a) ** 2}[k])
        elif k in "AbQ":
            Am = max(np.abs(new["A"]).max(), np.abs(M.p["A"]).max())
            base = max(xs, np.abs(M.p["b"]).max(), Am * xs)
            a = max(ampA, 1.0) ** 0.5
            scale = max(scale, {"A": base / xs * a, "b": base * a, "Q": (base * a) ** 2}[k])
        elif k == "mu0":
            scale = max(scale, xs)
        else:
            scale = max(scale, r.scs)
        g = got.p[k]
        ctx.check(g.shape == ref.shape, "mstep/" + k + "/shape",
                  "%s.em: %s has shape %s, expected %s" % (cls, em.ATTR[k], g.shape, ref.shape), **det)
        ctx.close(g, ref, scale, "mstep/" + k, "%s.em (%s): %s" % (cls, what, em.ATTR[k]), 5e-7, **det)
        ctx.saw("estimated:" + k)
        if k in M.tv:
            ctx.saw("was_time_varying")
        checked += 1
    for k in set(em.ATTR) - keys:
        ctx.check(np.array_equal(got.p[k], M.p[k]), "mstep/untouched",
                  "%s.em: %s was not selected but changed" % (cls, em.ATTR[k]), **det)
    return checked


def one(ctx, rng, **opt):
    cls = lc.pick_class(rng)
    opt.setdefault("T", int(rng.choice([1, 2, 3, 4, 6, 9, 14, 25])))
    opt.setdefault("n", int(rng.randint(1, 5)))
    opt.setdefault("m", int(rng.randint(1, 5)))
    M = models.lin(rng, tv_ok=lc.TV[cls], **opt)
    if rng.rand() < 0.4:
        # data from elsewhere: residuals are not small
        G = models.lin(rng, T=M.T, n=M.n, m=M.m, tv=set(), scale=False)
        z = models.simulate(rng, G)[1] * M.sz
    else:
        z = models.simulate(rng, M)[1]
    Z, obs, mk = models.observations(rng, M, z)
    ev, keys = em.subset(rng)
    if rng.rand() < 0.3:
        keys = set([k for k in em.ATTR if rng.rand() < 0.6])
        ev = [em.ATTR[k] for k in keys]
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.2 else ((), {})
    mom = em.moments(M, Z, obs)
    if max(mom[0].Sc, mom[0].cond_P) > lc.COND_MAX:
        ctx.saw("skipped:ill-conditioned")
        return
    kf = ctx.call("construct", cls, M.make, cls, omit, **extra)
    ctx.call("em", cls + ".em", kf.em, Z, n_iter=1, em_vars=ev)
    ctx.saw("em:" + cls)
    got = em.params_of(kf, M)
    c = compare(ctx, cls, M, Z, obs, keys, got, mom, "first iteration", mk)
    if c:
        ctx.sig(cls, M.n, M.m, M.T, "".join(sorted(keys)), "".join(sorted(M.tv)), mk)
    ctx.saw("missing_rows", int((~obs).sum()))
    # second iteration: the E-step must use the new parameters
    if c and M.T > 4 and obs.sum() > 3 and rng.rand() < 0.5:
        for k in ("Q", "R", "P0"):
            v = got.p[k] if got.p[k].ndim == 3 else got.p[k][None]
            for a in v:
                w = np.linalg.eigvalsh(0.5 * (a + a.T))
                if w[0] <= 1e-4 * w[-1]:
                    ctx.saw("skipped:degenerate")
                    return
        mom2 = em.moments(got, Z, obs, recursive=True)
        if max(mom2[0].Sc, mom2[0].cond_P) > lc.COND_MAX or mom2[0].cs.max() > 1e3 * mom2[0].cs[0]:
            return
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=1, em_vars=ev)
        if compare(ctx, cls, got, Z, obs, keys, em.params_of(kf, got), mom2, "second iteration", mk):
            ctx.saw("second")


def long(ctx, rng):
    one(ctx, rng, T=int(rng.choice([60, 150])), n=int(rng.randint(1, 4)), m=int(rng.randint(1, 3)))
    ctx.saw("long")


KINDS = {"one": one, "long": long}
PLAN = {"quick": {"one": 4000, "long": 80}, "thorough": {"one": 50000, "long": 1000}}
REQUIRED = (["em:" + c for c in models.LINEAR] + ["estimated:" + k for k in em.ATTR]
            + ["long", "missing_rows", "second", "was_time_varying"])
ASSUMPTIONS = ["estimates that the formulas leave undefined (no transition, no observed row) are not "
               "judged", "regressions with condition number above 1e5 are not judged"]
