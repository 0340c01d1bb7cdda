"""P08: EM changes exactly the selected parameters."""

import copy
import warnings

import numpy as np

from .. import emcommon as em, lincommon as lc, models

RULE = ("random model and data; a history of EM calls whose parameter selection comes from the call, the "
        "constructor, an assigned attribute or the default; every parameter is read before and after "
        "every call; distinct by class, selection route and form, subset and iteration split")


ODD = ([v[:-1] for v in em.EMV] + [v + "s" for v in em.EMV if not v.endswith("s")] + [v.upper() for v in em.EMV] +
       ["", "n_dim_state", "random_state", "em_vars", "transition", "observation", "covariance", "initial_state",
        "transition_matrice", "mean"])


def read(kf):
    return {k: np.array(getattr(kf, a), dtype=float) for k, a in em.ATTR.items()}


def close(ctx, a, b, mech, what, tol=1e-9, **det):
    for k in em.ATTR:
        s = max(np.abs(b[k]).max(), 1e-300)
        # offsets and means may be small because of cancellation: use a common floor
        s = max(s, 1e-3 * max(np.abs(b[j]).max() for j in em.ATTR))
        ctx.close(a[k], b[k], s, mech, "%s: %s" % (what, em.ATTR[k]), tol, **det)


def make_case(rng):
    cls = lc.pick_class(rng)
    n, m = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    T = int(rng.choice([8, 14, 22])) + 2 * (n + m)
    M = models.lin(rng, n=n, m=m, T=T, tv_ok=lc.TV[cls], scale=False, tvp=0.4)
    G = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    z = models.simulate(rng, G)[1]
    Z, obs, mk = models.observations(rng, M, z, kind=str(rng.choice(
        ["none", "nomask", "rows", "partial", "first", "last"])))
    return cls, M, Z, obs, mk


def select(ctx, rng):
    cls, M, Z, obs, mk = make_case(rng)
    if obs.sum() < 6:
        return
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.3 else ((), {})
    route = str(rng.choice(["call", "ctor", "attr", "default", "call-over-ctor"]))
    ev, keys = em.subset(rng)
    other, _ = em.subset(rng)
    if rng.rand() < 0.15 and route != "default":
        ev, keys = [], set()
    if isinstance(ev, (list, tuple, set)) and rng.rand() < 0.25:
        # names that are no parameter select nothing
        odd = [str(v) for v in rng.choice(ODD, int(rng.randint(1, 4)))]
        ev = type(ev)(list(ev) + odd)
        ctx.saw("odd-names")
    kw = {}
    if route == "ctor":
        extra = dict(extra, em_vars=ev)
    if route == "call-over-ctor":
        extra = dict(extra, em_vars=other)
        if ev is None:
            ev, keys = list(em.EMV), set(em.ATTR)
    kf = ctx.call("construct", cls, M.make, cls, omit, **extra)
    if route == "attr":
        kf.em_vars = ev
    if route in ("call", "call-over-ctor"):
        kw["em_vars"] = ev
    if route == "default":
        ev, keys = None, {em.KEY[v] for v in em.DEFAULT}
        if rng.rand() < 0.5:
            kw["em_vars"] = None
    det = dict(model=M.describe(), route=route, em_vars=str(ev), Z=Z)
    mom = em.moments(M, Z, obs)
    if max(mom[0].Sc, mom[0].cond_P) > lc.COND_MAX:
        return
    new = em.mstep(M, Z, obs, keys, mom)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        ctx.counts["library_calls"] += 1
        try:
            r = kf.em(Z, n_iter=1, **kw)
        except ValueError:
            if ev is not None and not isinstance(ev, str) and not set(ev) <= set(em.EMV):
                ctx.saw("odd-names-refused")
                return
            raise
    ctx.check(r is kf, "em-returns-self", cls + ".em must return the filter itself")
    got = read(kf)
    floor = dict.fromkeys(em.ATTR, 1e-3)
    floor.update(b=mom[0].sms, mu0=mom[0].sms, P0=mom[0].scs, Q=mom[0].scs,
                 d=np.abs(np.ma.getdata(Z)[obs]).max())
    for k in em.ATTR:
        if k in keys:
            moved = np.abs(new[k] - (M.p[k].mean(axis=0) if k in M.tv else M.p[k])).max() > \
                1e-3 * max(np.abs(M.p[k]).max(), floor[k])
            ctx.check(got[k].ndim == (1 if k in ("b", "d", "mu0") else 2), "em-constant",
                      "%s.em: estimated %s must be constant over time" % (cls, em.ATTR[k]), **det)
            if moved:
                ctx.check(not np.array_equal(got[k], M.p[k]), "em-selected",
                          "%s.em did not estimate the selected %s (%s)" % (cls, em.ATTR[k], route),
                          **det)
                ctx.saw("moved:" + k)
        else:
            ctx.check(got[k].shape == M.p[k].shape and np.array_equal(got[k], M.p[k]),
                      "em-untouched", "%s.em changed %s, which was not selected (%s)" % (
                          cls, em.ATTR[k], route), **det)
            ctx.saw("kept:" + k)
    tvsel = keys & M.tv
    if tvsel:
        ctx.check(len(rec) > 0, "em-warns",
                  "%s.em must warn when it replaces time-varying %s" % (cls, sorted(tvsel)), **det)
        ctx.saw("warned")
    for w in rec:
        named = [k for k in em.ATTR if em.ATTR[k] in str(w.message)]
        ctx.check(not issubclass(w.category, UserWarning) or not named or set(named) & tvsel, "em-false-warning",
                  "%s.em warns about %s, which is constant over time or not selected: %s" % (
                      cls, named, w.message), **det)
    if not tvsel:
        ctx.saw("not_warned")
    ctx.saw("route:" + route)
    ctx.sig(cls, route, type(ev).__name__, "".join(sorted(keys)), bool(tvsel))
    # the call's selection is not remembered
    if route == "call-over-ctor":
        k2 = {em.KEY[v] for v in em.DEFAULT} if other is None else (
            set(em.ATTR) if isinstance(other, str) else {em.KEY[v] for v in other})
        before = read(kf)
        for k in ("Q", "R", "P0"):
            a = before[k] if before[k].ndim == 3 else before[k][None]
            if min(np.linalg.eigvalsh(x)[0] / np.linalg.eigvalsh(x)[-1] for x in a) < 1e-4:
                return
        M2 = em.params_of(kf, M)
        r = em.moments(M2, Z, obs, recursive=True)[0]
        if max(r.Sc, r.cond_P) > lc.COND_MAX:
            return
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=1)
        after = read(kf)
        for k in set(em.ATTR) - k2:
            ctx.check(np.array_equal(after[k], before[k]), "em-not-remembered",
                      "%s.em: the call's selection must not outlive it (%s changed)" % (cls, k), **det)
        ctx.saw("not_remembered")


def split(ctx, rng):
    """k iterations = k single iterations; 0 iterations change nothing; 10 is the default."""
    cls, M, Z, obs, mk = make_case(rng)
    if obs.sum() < 6:
        return
    ev, keys = em.subset(rng)
    # estimating C and A together is not identified and may wander; keep the histories tame
    if {"A", "Q"} <= keys and {"C", "R"} <= keys and not isinstance(ev, str):
        keys -= {"C"}
        ev = [em.ATTR[k] for k in sorted(keys)]
    k = int(rng.choice([1, 2, 3, 4, 10, 14, 25]))
    make = lambda: ctx.call("construct", cls, M.make, cls)  # noqa: E731
    one = make()
    before = read(one)
    r = ctx.call("em", cls + ".em(n_iter=0)", one.em, Z, n_iter=0, em_vars=ev)
    ctx.check(r is one, "em-returns-self", cls + ".em must return the filter itself")
    after = read(one)
    det = dict(model=M.describe(), Z=Z, em_vars=str(ev), k=k)
    for q in em.ATTR:
        ctx.check(np.array_equal(before[q], after[q]), "em-zero",
                  "%s.em(n_iter=0) changed %s" % (cls, em.ATTR[q]), **det)
    hist = []
    for _ in range(k):
        ctx.call("em", cls + ".em", one.em, Z, n_iter=1, em_vars=ev)
        p = read(one)
        hist.append(p)
        for q in ("Q", "R", "P0"):
            a = p[q] if p[q].ndim == 3 else p[q][None]
            w = [np.linalg.eigvalsh(x) for x in a]
            if min(v[0] / v[-1] for v in w) < 1e-4:
                k = len(hist)
        if k == len(hist):
            break
    if len(hist) < k or np.abs(hist[-1]["A"]).max() > 5:
        return
    many = make()
    ctx.call("em", cls + ".em", many.em, Z, n_iter=k, em_vars=ev)
    close(ctx, read(many), hist[-1], "em-split", "%s.em(n_iter=%d) vs %d single iterations" % (
        cls, k, k), 1e-7, **det)
    if k == 10:
        d = make()
        ctx.call("em", cls + ".em()", d.em, Z, em_vars=ev)
        close(ctx, read(d), hist[-1], "em-default-iterations", cls + ".em() runs ten iterations",
              1e-7, **det)
        ctx.saw("default_iterations")
    if k > 2:
        s = int(rng.randint(1, k))
        d = make()
        ctx.call("em", cls + ".em", d.em, Z, n_iter=s, em_vars=ev)
        # a filter rebuilt half way continues identically
        d2 = copy.deepcopy(d) if rng.rand() < 0.5 else d
        ctx.call("em", cls + ".em", d2.em, Z, None, k - s, ev)
        close(ctx, read(d2), hist[-1], "em-split", "%s.em in two calls (%d+%d)" % (cls, s, k - s),
              1e-7, **det)
    # 'all' is the list of all eight
    if keys == set(em.ATTR):
        a, b = make(), make()
        ctx.call("em", cls, a.em, Z, n_iter=1, em_vars="all")
        ctx.call("em", cls, b.em, Z, n_iter=1, em_vars=list(em.EMV))
        close(ctx, read(a), read(b), "em-all", cls + ".em('all')", 1e-12, **det)
        ctx.saw("all")
    ctx.saw("split:" + cls)
    ctx.sig("split", cls, k, "".join(sorted(keys)), mk)


KINDS = {"select": select, "split": split}
PLAN = {"quick": {"select": 2500, "split": 700}, "thorough": {"select": 30000, "split": 9000}}
REQUIRED = (["route:" + r for r in ("call", "ctor", "attr", "default", "call-over-ctor")]
            + ["moved:" + k for k in em.ATTR] + ["kept:" + k for k in em.ATTR]
            + ["split:" + c for c in models.LINEAR]
            + ["warned", "not_warned", "odd-names", "not_remembered", "default_iterations", "all"])
ASSUMPTIONS = ["splits are followed until a covariance becomes numerically singular"]
