"""P20: filters survive copying, pickling and re-assignment of parameters."""

import copy
import io
import os
import pickle
import subprocess
import sys

import numpy as np

from .. import core, lincommon as lc, models, nlcommon as nl, pickles

RULE = ("filters in random histories (construction with some parameters omitted, EM, sampling), copied by "
        "every method or re-parameterised, then run side by side; distinct by class, copy method, history, "
        "parameter subset")

ATTRS = list(models.PARAMS)
LONG = {a: k for k, a in models.SHORT.items()}
UATTRS = ["transition_functions", "observation_functions", "transition_covariance", "observation_covariance",
          "initial_state_mean", "initial_state_covariance"]


def operations(kf, Z, seed):
    """Results of every operation that leaves the filter unchanged."""
    out = {}
    m, c = kf.filter(Z)
    out["filter.m"], out["filter.c"] = np.ma.getdata(m), c
    out["smooth.m"], out["smooth.c"] = [np.ma.getdata(v) for v in kf.smooth(Z)]
    if hasattr(kf, "loglikelihood"):
        out["loglikelihood"] = kf.loglikelihood(Z)
    s, o = kf.sample(min(3, len(Z)), random_state=seed)
    out["sample.s"], out["sample.o"] = np.ma.getdata(s), np.ma.getdata(o)
    return {k: np.array(v, float) for k, v in out.items()}


def updates(kf, st, z, kw):
    """One online update, masked and not."""
    out = {}
    for i, o in enumerate((z, None)):
        m, c = kf.filter_update(st[0].copy(), st[1].copy(), o, **kw)
        out["update%d.m" % i], out["update%d.c" % i] = np.array(np.ma.getdata(m), float), np.array(c, float)
    return out


def same(ctx, a, b, mech, what, tol=1e-9):
    for k in a:
        ctx.close(b[k], a[k], max(np.abs(a[k]).max() if a[k].size else 1.0, 1e-6), mech + "/" + k.split(".")[0],
                  "%s: %s" % (what, k), tol)


def learned(ctx, a, b, mech, what):
    """Equal parameters after the same learning steps."""
    for k in ATTRS:
        v, w = getattr(a, k), getattr(b, k)
        ctx.check((v is None) == (w is None), mech, "%s: %s is set in one only" % (what, k))
        if v is not None:
            v = np.array(v, float)
            ctx.close(np.array(w, float), v, max(np.abs(v).max(), 1e-6), mech, "%s: %s" % (what, k), 1e-8)


METHODS = ("deepcopy", "pickle", "rebuild", "getattr", "vars")


def replicate(ctx, rng, kf, cls, how):
    """A copy of a filter by one of the supported ways."""
    if how == "deepcopy":
        return ctx.call("copy", cls + ": deepcopy", copy.deepcopy, kf)
    if how == "pickle":
        pr = int(rng.randint(0, pickle.HIGHEST_PROTOCOL + 1))
        return ctx.call("copy", cls + ": pickle", lambda: pickle.loads(pickle.dumps(kf, protocol=pr)))
    names = (ATTRS + ["em_vars"] if hasattr(kf, "em_vars") else UATTRS) + ["n_dim_state", "n_dim_obs"]
    kw = {k: getattr(kf, k) for k in names}
    rs = kf.random_state
    kw["random_state"] = copy.deepcopy(rs)
    if how == "vars":
        # private copies of the arrays, empty parameters left out
        kw = {k: (np.array(v) if isinstance(v, np.ndarray) and v.dtype != object else v)
              for k, v in kw.items() if v is not None}
    if how == "getattr" and rng.rand() < 0.5:
        kw.pop("n_dim_state")
        if kw["observation_covariance"] is not None or kw.get("observation_offsets") is not None or \
                kw.get("observation_matrices") is not None:
            kw.pop("n_dim_obs")
        if all(kw.get(k) is None for k in ("transition_matrices", "transition_covariance", "initial_state_mean",
                                           "initial_state_covariance", "transition_offsets",
                                           "observation_matrices")):
            kw["n_dim_state"] = kf.n_dim_state
    return ctx.call("copy", cls + ": rebuild", type(kf), **kw)


def snap(kf):
    """Public parameters by value."""
    out = {}
    for k in (ATTRS if hasattr(kf, "em_vars") else UATTRS):
        v = getattr(kf, k)
        if v is None or "functions" in k:
            out[k] = None
        else:
            out[k] = np.array(v, float).tobytes()
    return out


def spoil(kf):
    """Overwrite every parameter array of a filter in place."""
    for k in (ATTRS if hasattr(kf, "em_vars") else UATTRS):
        v = getattr(kf, k)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.flags.writeable:
            v *= 1.5
            v += 0.25


def pick_state(rng):
    r = rng.rand()
    if r < 0.4:
        return None
    if r < 0.7:
        return int(rng.randint(1000))
    return np.random.RandomState(int(rng.randint(1000)))


def build(ctx, rng):
    """(class, model, filter, Z, update arguments, em keywords)."""
    cls, M, Z, obs, mk = lc.make_case(rng, T=int(rng.choice([2, 3, 6, 14])), n=int(rng.randint(1, 4)),
                                      m=int(rng.randint(1, 4)), scale=False, structure=0.6)
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.5 else (set(), {})
    ev = [None, None, "all", ["transition_covariance"], ["observation_covariance", "transition_matrices"],
          ("initial_state_mean", "initial_state_covariance")][rng.randint(6)]
    kf = ctx.call("construct", cls, M.make, cls, omit, em_vars=ev, random_state=pick_state(rng), **extra)
    args = {"transition_matrix": "A", "transition_offset": "b", "transition_covariance": "Q",
            "observation_matrix": "C", "observation_offset": "d", "observation_covariance": "R"}
    kw = {a: M.at(k, 0).copy() for a, k in args.items() if k in M.tv}
    can_em = not (M.tv & {"Q", "R"}) and M.T > M.n + M.m + 2 and obs.sum() > M.n + M.m + 1
    return cls, M, kf, Z, kw, can_em, omit, ev


def run_em(ctx, cls, kf, Z, M, ev):
    """One EM iteration over parameters that do not vary."""
    use = [models.SHORT[k] for k in M.p if k not in M.tv] if (ev in (None, "all") and M.tv) else None
    if use is None and ev not in (None, "all") and any(models.SHORT[k] in ev for k in M.tv):
        use = [e for e in ev if e not in {models.SHORT[k] for k in M.tv}]
    if use is None:
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=1)
    else:
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=1, em_vars=use)
    # usable only while the estimates are regular
    for k in ("transition_covariance", "observation_covariance", "initial_state_covariance"):
        v = getattr(kf, k)
        if v is not None:
            w = np.linalg.eigvalsh(np.array(v, float))
            if not np.isfinite(w).all() or w.min() <= 1e-7 * w.max():
                return False
    return True


def stream(kf, T):
    """Draws from the filter's own generator."""
    s, o = kf.sample(min(2, T))
    return {"own-sample.s": np.array(np.ma.getdata(s), float), "own-sample.o": np.array(np.ma.getdata(o), float)}


def linear(ctx, rng):
    cls, M, kf, Z, kw, can_em, omit, ev = build(ctx, rng)
    hist = "new"
    if can_em and rng.rand() < 0.6:
        if not run_em(ctx, cls, kf, Z, M, ev):
            ctx.saw("degenerate")
            return
        hist = "em"
    if kf.random_state is not None and rng.rand() < 0.5:
        ctx.call("sample", cls + ".sample", kf.sample, min(2, M.T))
        hist += "+sampled"
    how = str(rng.choice(METHODS))
    cp = replicate(ctx, rng, kf, cls, how)
    what = "%s (%s, %s) and the original" % (cls, hist, how)
    ctx.check(type(cp) is type(kf), "type", what + " have different types")
    seed = int(rng.randint(1 << 30))
    st = (M.p["mu0"].copy(), M.p["P0"].copy())
    z = np.ma.getdata(Z)[0]
    z = np.where(np.isfinite(z), z, 0.0)
    first, second = (kf, cp) if rng.rand() < 0.5 else (cp, kf)
    x = ctx.call("run", what, operations, first, Z, seed)
    y = ctx.call("run", what, operations, second, Z, seed)
    same(ctx, x, y, how, what)
    xu = ctx.call("run", what, updates, first, st, z, kw)
    same(ctx, xu, ctx.call("run", what, updates, second, st, z, kw), how, what)
    if kf.random_state is not None:
        same(ctx, ctx.call("run", what, stream, first, len(Z)), ctx.call("run", what, stream, second, len(Z)), how, what)
        ctx.saw("own_stream")
    # learning goes on identically
    before = snap(kf)
    if can_em and rng.rand() < 0.6:
        ok = run_em(ctx, cls, cp, Z, M, ev)
        ctx.check(snap(kf) == before, "independent", what + ": EM on the copy changed the original")
        third = ctx.call("run", what, operations, kf, Z, seed)
        same(ctx, x, third, "independent", what + ", after EM on the copy")
        run_em(ctx, cls, kf, Z, M, ev)
        learned(ctx, kf, cp, how, what + ", after EM")
        if ok:
            same(ctx, ctx.call("run", what, operations, kf, Z, seed), ctx.call("run", what, operations, cp, Z, seed),
                 how, what + ", after EM")
        ctx.saw("em-both")
        x = None
    elif how in ("deepcopy", "pickle", "vars"):
        spoil(cp)
        ctx.check(snap(kf) == before, "independent", what + ": changing the copy's arrays changed the original")
        same(ctx, x, ctx.call("run", what, operations, kf, Z, seed), "independent",
             what + ", after the copy's arrays were overwritten")
        ctx.saw("spoiled")
    ctx.saw("%s:%s" % (how, cls))
    ctx.sig(cls, how, hist, "".join(sorted(M.tv)), "".join(sorted(omit)), str(ev))


def make_ukf(rng):
    """Unscented filter with picklable functions; (class, N, filter keywords)."""
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", T=int(rng.choice([2, 3, 6])), n=int(rng.randint(1, 4)), m=int(rng.randint(1, 3)))
    if rng.rand() < 0.25:
        # plain module-level functions
        N.m = 1
        N.R = N.R[:1, :1].copy()
        f, g = (pickles.f_noise, pickles.g_noise) if cls == "UKF" else (pickles.f_plain, pickles.g_plain)
        fs, gs, N.tvf, N.tvg = f, g, False, False
    else:
        fs = [pickles.F(N.A[i], N.b[i], N.B[i], N.e, N.G[i] if cls == "UKF" else None) for i in range(len(N.A))]
        gs = [pickles.F(N.C[i], N.d[i], N.D[i], N.e, N.H[i] if cls == "UKF" else None, True)
              for i in range(len(N.C))]

        def pack(v):
            if len(v) == 1:
                return v[0]
            return list(v) if rng.rand() < 0.5 else np.array(v, dtype=object)

        fs, gs = pack(fs), pack(gs)
    kw = dict(transition_functions=fs, observation_functions=gs, transition_covariance=N.Q,
              observation_covariance=N.R, initial_state_mean=N.mu0, initial_state_covariance=N.P0)
    kw = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in kw.items()}
    return cls, N, kw


def udata(rng, N):
    z = rng.randn(N.T, N.m)
    if rng.rand() < 0.5:
        k = rng.rand(N.T, N.m) < 0.2
        return np.ma.array(z, mask=k)
    return z


def ukw(kw, N):
    out = {}
    if isinstance(kw["transition_functions"], (list, np.ndarray)):
        out["transition_function"] = kw["transition_functions"][0]
    if isinstance(kw["observation_functions"], (list, np.ndarray)):
        out["observation_function"] = kw["observation_functions"][0]
    return out


def regular(ctx, run, *a):
    """Run; False when the transform is degenerate for this model."""
    x = run(*a)
    return x if all(np.isfinite(v).all() for v in x.values()) else None


def unscented(ctx, rng):
    cls, N, kw = make_ukf(rng)
    Z = udata(rng, N)
    kf = ctx.call("construct", cls, models.cls_of(cls), random_state=pick_state(rng), **kw)
    seed = int(rng.randint(1 << 30))
    try:
        x = operations(kf, Z, seed)
    except np.linalg.LinAlgError:
        ctx.saw("degenerate")
        return
    if not all(np.isfinite(v).all() for v in x.values()):
        ctx.saw("degenerate")
        return
    how = str(rng.choice(METHODS))
    cp = replicate(ctx, rng, kf, cls, how)
    what = "%s (%s) and the original" % (cls, how)
    ctx.check(type(cp) is type(kf), "type", what + " have different types")
    same(ctx, x, ctx.call("run", what, operations, cp, Z, seed), how, what)
    st = (N.mu0.copy(), N.P0.copy())
    u = ctx.call("run", what, updates, kf, st, np.ma.getdata(Z)[0], ukw(kw, N))
    same(ctx, u, ctx.call("run", what, updates, cp, st, np.ma.getdata(Z)[0], ukw(kw, N)), how, what)
    if kf.random_state is not None:
        same(ctx, ctx.call("run", what, stream, kf, len(Z)), ctx.call("run", what, stream, cp, len(Z)), how, what)
        ctx.saw("own_stream")
    if how in ("deepcopy", "pickle", "vars"):
        spoil(cp)
        same(ctx, x, ctx.call("run", what, operations, kf, Z, seed), "independent",
             what + ", after the copy's arrays were overwritten")
        ctx.saw("spoiled")
    ctx.saw("%s:%s" % (how, cls))
    ctx.sig(cls, how, N.n, N.m, N.tvf, N.tvg)


def assign(ctx, rng):
    """Assigned attributes act as constructor arguments, at any point of a history."""
    cls, M, kf, Z, kw, can_em, omit, ev = build(ctx, rng)
    W = models.lin(rng, n=M.n, m=M.m, T=M.T, tv_ok=lc.TV[cls], scale=False)
    seed = int(rng.randint(1 << 30))
    hist = "new"
    if rng.rand() < 0.6:
        hist = "used"
        ctx.call("run", cls, operations, kf, Z, seed)
        if can_em and rng.rand() < 0.5:
            if not run_em(ctx, cls, kf, Z, M, ev):
                ctx.saw("degenerate")
                return
            hist = "em"
    keys = [k for k in M.p if rng.rand() < 0.5] or ["A"]
    vals = {}
    for k in keys:
        v = W.p[k].copy()
        r = rng.rand()
        if r < 0.2:
            v = None
        elif r < 0.4:
            v = v.tolist()
        vals[models.SHORT[k]] = v
    names = ATTRS + ["n_dim_state", "n_dim_obs", "em_vars", "random_state"]
    now = {k: getattr(kf, k) for k in names}
    if rng.rand() < 0.5:
        # None: the documented default again, whatever was set before
        vals["em_vars"] = [None, None, "all", ["transition_covariance", "initial_state_mean"],
                           ("observation_matrices", "observation_covariance")][rng.randint(5)]
        ctx.saw("assigned_em_vars")
    if rng.rand() < 0.3:
        vals["random_state"] = int(rng.randint(1000))
    if rng.rand() < 0.3:
        # what is replaced was of another type, or of the same shape by accident
        typed = [int, np.float32, object][rng.randint(3)]
        old = {k: np.round(np.array(W.p[LONG[k]])).astype(typed) for k in vals if k in LONG}
        if hist == "new":
            c = {k: getattr(kf, k) for k in names}
            c.update(old)
            kf = ctx.call("construct", cls, models.cls_of(cls), **c)
        else:
            for k, v in old.items():
                setattr(kf, k, v)
        ctx.saw("retyped")
    now.update(copy.deepcopy(vals))
    for k, v in vals.items():
        setattr(kf, k, v)
    now["random_state"] = copy.deepcopy(now["random_state"])
    ref = ctx.call("construct", cls, models.cls_of(cls), **now)
    what = "%s with assigned %s (%s) and one constructed so" % (cls, sorted(vals), hist)
    try:
        x = operations(ref, Z, seed)
    except Exception:                                # the mixture is not a valid model
        ctx.saw("invalid-mixture")
        return
    same(ctx, x, ctx.call("run", what, operations, kf, Z, seed), "assign", what)
    tv = {k for k, a in models.SHORT.items()
          if getattr(ref, a) is not None and np.ndim(getattr(ref, a)) > (1 if k in ("b", "d", "mu0") else 2)}
    args = {"transition_matrix": "A", "transition_offset": "b", "transition_covariance": "Q",
            "observation_matrix": "C", "observation_offset": "d", "observation_covariance": "R"}
    u = {a: np.array(getattr(ref, models.SHORT[k]), float)[0] for a, k in args.items() if k in tv}
    st = (np.zeros(M.n), np.eye(M.n))
    z = np.zeros(M.m)
    same(ctx, ctx.call("run", what, updates, ref, st, z, u), ctx.call("run", what, updates, kf, st, z, u), "assign",
         what)
    if ref.random_state is not None:
        same(ctx, ctx.call("run", what, stream, ref, len(Z)), ctx.call("run", what, stream, kf, len(Z)), "assign", what)
    if can_em and not tv and rng.rand() < 0.7:
        for f in (ref, kf):
            ctx.call("em", cls + ".em", f.em, Z, n_iter=1)
        learned(ctx, ref, kf, "assign/em", what + ", after EM")
        ctx.saw("assign-em")
    ctx.saw("assign:" + cls)
    ctx.sig("assign", cls, "".join(sorted(keys)), hist, "".join("N" if v is None else "v" for v in vals.values()))


def uassign(ctx, rng):
    """The same for the unscented filters, functions included."""
    cls, N, kw = make_ukf(rng)
    for _ in range(8):
        cls2, W, kw2 = make_ukf(rng)
        if (cls2, W.n, W.m) == (cls, N.n, N.m):
            break
    else:
        kw2, W = dict(kw), N
        kw2["transition_covariance"] = 2 * N.Q
        kw2["initial_state_mean"] = N.mu0 + 1
    T = min(N.T, W.T)
    Z = udata(rng, N)[:T]
    rs0 = pick_state(rng)
    kf = ctx.call("construct", cls, models.cls_of(cls), random_state=copy.deepcopy(rs0), **kw)
    seed = int(rng.randint(1 << 30))
    if rng.rand() < 0.6:
        try:
            operations(kf, Z, seed)
        except np.linalg.LinAlgError:
            pass
    keys = [k for k in UATTRS if rng.rand() < 0.5] or ["transition_functions"]
    now = dict(kw, random_state=rs0)
    for k in keys:
        v = kw2[k]
        if "functions" not in k:
            v = None if rng.rand() < 0.15 else v.tolist() if rng.rand() < 0.3 else v.copy()
        setattr(kf, k, v)
        now[k] = v
    rs = pick_state(rng)
    if rng.rand() < 0.5:
        # a generator is advanced by whoever uses it: give each its own
        kf.random_state, now["random_state"] = rs, copy.deepcopy(rs)
        keys.append("random_state")
    ref = ctx.call("construct", cls, models.cls_of(cls), n_dim_state=N.n, n_dim_obs=N.m, **now)
    what = "%s with assigned %s and one constructed so" % (cls, keys)
    try:
        x = operations(ref, Z, seed)
    except Exception:
        ctx.saw("degenerate")
        return
    if not all(np.isfinite(v).all() for v in x.values()):
        ctx.saw("degenerate")
        return
    same(ctx, x, ctx.call("run", what, operations, kf, Z, seed), "assign", what)
    if ref.random_state is not None:
        same(ctx, ctx.call("run", what, stream, ref, T), ctx.call("run", what, stream, kf, T), "assign", what)
        ctx.saw("assigned_seed:" + cls)
    ctx.saw("assign:" + cls)
    ctx.sig("assign", cls, len(keys), N.n, N.m)


def redim(ctx, rng):
    """A filter given other dimensions, and whichever parameters, is the filter constructed so."""
    seed = int(rng.randint(1 << 30))
    if rng.rand() < 0.6:
        cls = lc.pick_class(rng)
        M = models.lin(rng, tv_ok=(), scale=False)
        W = models.lin(rng, tv_ok=(), scale=False)
        old, new = M.kw(), W.kw()
        z = models.simulate(rng, W)[1][:8]
        ev = [None, "all", ["observation_matrices", "transition_covariance"]][rng.randint(3)]
    else:
        cls = nl.pick(rng)
        M, W = nl.NL(rng, cls != "UKF"), nl.NL(rng, cls != "UKF")
        old = dict(transition_covariance=M.Q, observation_covariance=M.R, initial_state_mean=M.mu0,
                   initial_state_covariance=M.P0)
        new = dict(transition_covariance=W.Q, observation_covariance=W.R, initial_state_mean=W.mu0,
                   initial_state_covariance=W.P0)
        z = rng.randn(4, W.m)
        ev = None
    if W.n != W.m and "transition_matrices" not in new:
        new["observation_functions"] = (lambda s, v: s[:1] + v) if cls == "UKF" else (lambda s: s[:1] + np.zeros(W.m))
    keep = rng.choice([0.0, 0.4, 1.0])
    old = {k: v.copy() for k, v in old.items() if rng.rand() < 0.5}
    typed = [None, None, int, np.float32][rng.randint(4)]
    if typed is not None:
        old = {k: np.round(v).astype(typed) for k, v in old.items()}
    kf = ctx.call("construct", cls, models.cls_of(cls), n_dim_state=M.n, n_dim_obs=M.m, **old)
    if rng.rand() < 0.5 and typed is None and "transition_matrices" in new:
        ctx.call("run", cls, kf.filter, rng.randn(3, M.m))
    given = {k: v for k, v in new.items() if "functions" in k or rng.rand() < keep}
    full = dict.fromkeys(list(old) + list(new))
    full.update(given, n_dim_state=W.n, n_dim_obs=W.m)
    if ev is not None:
        full["em_vars"] = ev
    order = list(full)
    rng.shuffle(order)
    for k in order:
        setattr(kf, k, full[k])
    ref = ctx.call("construct", cls, models.cls_of(cls), **full)
    what = "%s of dimensions (%d, %d) changed to (%d, %d), %s given, and one constructed so" % (
        cls, M.n, M.m, W.n, W.m, sorted(given))
    k = rng.randint(4)
    z = z[:1] if k == 0 else z[:2] if k == 1 else z
    try:
        x = operations(ref, z, seed)
        u = updates(ref, (np.zeros(W.n), np.eye(W.n)), z[0], {})
    except np.linalg.LinAlgError:
        ctx.saw("degenerate")
        return
    if not all(np.isfinite(v).all() for v in x.values()):
        ctx.saw("degenerate")
        return
    same(ctx, x, ctx.call("run", what, operations, kf, z, seed), "redim", what)
    same(ctx, u, ctx.call("run", what, updates, kf, (np.zeros(W.n), np.eye(W.n)), z[0], {}), "redim", what)
    if cls in models.LINEAR and len(z) > W.n + W.m + 2:
        for f in (ref, kf):
            ctx.call("em", cls + ".em", f.em, z, n_iter=1)
        learned(ctx, ref, kf, "redim/em", what + ", after EM")
    ctx.saw("redim:" + cls)
    ctx.sig("redim", cls, M.n, M.m, W.n, W.m, sorted(given), len(z))


def fresh(ctx, rng):
    """Unpickled in another process."""
    if rng.rand() < 0.6:
        cls, M, kf, Z, kw, can_em, omit, ev = build(ctx, rng)
        if can_em and not run_em(ctx, cls, kf, Z, M, ev):
            return
    else:
        cls, N, kw = make_ukf(rng)
        Z = udata(rng, N)
        kf = ctx.call("construct", cls, models.cls_of(cls), **kw)
    seed = int(rng.randint(1 << 30))
    try:
        x = operations(kf, Z, seed)
    except np.linalg.LinAlgError:
        return
    if not all(np.isfinite(v).all() for v in x.values()):
        return
    data = ctx.call("copy", cls + ": pickle", pickle.dumps, (kf, Z, seed))
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([core.VERIF, core.REPO]), PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([sys.executable, "-c", pickles.CHILD], input=data, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=300)
    ctx.check(r.returncode == 0, "fresh/raised", "%s: using a pickled filter in a fresh process failed: %s" % (
        cls, r.stderr[-600:].decode(errors="replace")))
    y = pickle.load(io.BytesIO(r.stdout))
    same(ctx, x, y, "fresh", cls + " in a fresh process and the original")
    ctx.saw("fresh")
    ctx.sig("fresh", cls)


KINDS = {"linear": linear, "unscented": unscented, "assign": assign, "uassign": uassign, "redim": redim, "fresh": fresh}
PLAN = {"quick": {"linear": 1800, "unscented": 900, "assign": 1500, "uassign": 800, "redim": 800, "fresh": 16},
        "thorough": {"linear": 40000, "unscented": 20000, "assign": 40000, "uassign": 16000, "redim": 16000, "fresh": 240}}
REQUIRED = (["%s:%s" % (m, c) for m in METHODS + ("assign", "redim") for c in models.LINEAR + nl.UNSC] +
            ["assigned_seed:" + c for c in nl.UNSC] + ["own_stream", "spoiled", "em-both", "assign-em", "fresh", "assigned_em_vars", "retyped"])
ASSUMPTIONS = ["user functions are picklable and deterministic",
               "assigned parameters fit the filter's dimensions, which may be assigned as well"]
