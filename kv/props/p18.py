"""P18: dimensions, defaults and array-likes are interpreted consistently."""

import warnings

import numpy as np

from .. import emcommon as emc, lincommon as lc, models, nlcommon as nl

RULE = ("the same values executed in two representations, dimension clues given by random subsets of "
        "parameters, and contradictory shapes; distinct by class, operation, representation, parameter "
        "subset and dimensions")

FORMS = ("list", "tuple", "fortran", "strided", "reversed", "swapped", "readonly", "int", "int32",
         "uint8", "uint32", "single", "bool", "squeezed", "offset-view", "subclass", "object-free")


class Sub(np.ndarray):
    """A trivial ndarray subclass."""


def form(rng, v, kind):
    """The same values in another representation, or None if they do not fit."""
    v = np.array(v, float)
    if kind == "list":
        return v.tolist()
    if kind == "tuple":
        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x
        return tup(v.tolist())
    if kind == "fortran":
        return np.asfortranarray(v)
    if kind == "strided":
        big = np.full(tuple(2 * k + 1 for k in v.shape), np.nan)
        view = big[tuple(slice(0, 2 * k, 2) for k in v.shape)]
        view[...] = v
        return view
    if kind == "reversed":
        return v[tuple([slice(None, None, -1)] * v.ndim)].copy()[tuple([slice(None, None, -1)] * v.ndim)]
    if kind == "swapped":
        return v.astype(v.dtype.newbyteorder())
    if kind == "readonly":
        w = v.copy()
        w.flags.writeable = False
        return w
    if kind in ("int", "int32"):
        return v.astype(np.int64 if kind == "int" else np.int32) if (v == np.round(v)).all() else None
    if kind in ("uint8", "uint32"):
        return v.astype(kind) if (v == np.round(v)).all() and v.min(initial=0) >= 0 and v.max(initial=0) < 256 else None
    if kind == "single":
        return v.astype(np.float32) if (v.astype(np.float32) == v).all() else None
    if kind == "half":
        return v.astype(np.float16) if (v.astype(np.float16) == v).all() else None
    if kind == "bool":
        return v.astype(bool) if ((v == 0) | (v == 1)).all() else None
    if kind == "squeezed":
        # scalars and row vectors for one-dimensional matrices
        if rng.rand() < 0.5 and v.size and (v == np.round(v)).all() and np.abs(v).max() < 1e9:
            v = v.astype(int)
        if v.size == 1 and v.ndim <= 2:
            return v.ravel()[0].item()
        if v.ndim == 2 and v.shape[0] == 1:
            return [v[0].tolist(), tuple(v[0].tolist()), v[0].copy()][rng.randint(3)]
        return None
    if kind == "offset-view":
        buf = bytearray(v.nbytes + 8)
        w = np.frombuffer(buf, dtype=float, offset=8).reshape(v.shape)
        w[...] = v
        return w
    if kind == "subclass":
        return v.view(Sub)
    return v


def integral(rng, M):
    """Round the model to small integers (keeps it valid)."""
    q = {}
    for k in ("A", "C"):
        q[k] = np.round(2 * M.p[k] / max(np.abs(M.p[k]).max(), 1e-9))
    q["A"] = np.clip(q["A"], -1, 1)
    for k in ("b", "d", "mu0"):
        q[k] = np.round(3 * M.p[k] / max(np.abs(M.p[k]).max(), 1e-9))

    nonneg = rng.rand() < 0.4                        # so that unsigned integers can hold the values
    if nonneg:
        for k in q:
            q[k] = np.abs(q[k])

    def spd(n):
        L = rng.randint(0 if nonneg else -1, 2, (n, n))
        return (L.dot(L.T) + (n + 1) * np.eye(n)).round()

    for k, n in (("Q", M.n), ("R", M.m)):
        q[k] = np.array([spd(n) for _ in M.p[k]]) if M.p[k].ndim == 3 else spd(n)
    q["P0"] = spd(M.n)
    if rng.rand() < 0.2:
        q["A"] = np.round(np.broadcast_to(np.eye(M.n), M.p["A"].shape))
    W = M.copy(**q)
    W.T = M.T
    return W


def dyadic(M):
    """Round to multiples of 1/16 (exact in half and single precision); keeps symmetry."""
    q = {}
    for k, v in M.p.items():
        q[k] = np.round(v * 16) / 16
    for k in ("Q", "R", "P0"):
        n = q[k].shape[-1]
        q[k] = q[k] + 0.25 * np.eye(n)
    W = M.copy(**q)
    W.T = M.T
    return W


def run_all(ctx, cls, kf, Z, seed, obsval, state, em, kw=None, tag=""):
    """Every operation; list of (name, arrays)."""
    out = []
    f = ctx.call("form" + tag, cls + ".filter", kf.filter, Z)
    out.append(("filter", f))
    out.append(("smooth", ctx.call("form" + tag, cls + ".smooth", kf.smooth, Z)))
    if hasattr(kf, "loglikelihood"):
        out.append(("loglikelihood", (ctx.call("form" + tag, cls + ".loglikelihood", kf.loglikelihood, Z),)))
    out.append(("filter_update", ctx.call("form" + tag, cls + ".filter_update", kf.filter_update,
                                           state[0], state[1], obsval, **(kw or {}))))
    out.append(("sample", ctx.call("form" + tag, cls + ".sample", kf.sample, 2, random_state=seed)))
    if em:
        ctx.call("form" + tag, cls + ".em", kf.em, Z, n_iter=1, em_vars=em)
        out.append(("em", tuple(np.array(getattr(kf, k), float) for k in sorted(em))))
    return out


ARGS = dict(A="transition_matrix", b="transition_offset", Q="transition_covariance",
            C="observation_matrix", d="observation_offset", R="observation_covariance")


def linear(ctx, rng):
    cls = lc.pick_class(rng)
    M = models.lin(rng, tv_ok=lc.TV[cls], T=int(rng.choice([2, 3, 6, 12])), scale=False)
    how = str(rng.choice(["plain", "int", "dyadic"]))
    if how == "int":
        M = integral(rng, M)
    elif how == "dyadic":
        M = dyadic(M)
    for k in ("Q", "R", "P0"):
        if np.linalg.eigvalsh(M.p[k]).min() < 1e-3 * np.abs(M.p[k]).max():
            return
    z = models.simulate(rng, M)[1]
    if how != "plain":
        z = np.round(z) if how == "int" else np.round(z * 16) / 16
    Z, obs, mk = models.observations(rng, M, z)
    if how != "plain":
        Z = np.round(Z * 16) / 16 if how == "dyadic" else np.round(Z)
        if how == "int" and min(v.min() for v in M.p.values() if v.ndim == 1) >= 0:
            Z = np.ma.abs(Z) if isinstance(Z, np.ma.MaskedArray) else np.abs(Z)
    r = lc.Ref(M, Z, obs)
    if max(r.Sc, r.cond_P) > 2e3:
        ctx.saw("skipped:ill-conditioned")
        return
    fits = [k for k in FORMS if any(form(rng, v, k) is not None for v in M.p.values())]
    kind = str(rng.choice(fits))
    keys = [k for k in M.p if rng.rand() < 0.6 and form(rng, M.p[k], kind) is not None]
    if not keys:
        return
    kw = M.kw()
    kw.update({models.SHORT[k]: form(rng, M.p[k], kind) for k in keys})
    # observations too
    zk, Zv = "plain", Z
    masked = np.ma.getmaskarray(Z).any()
    if rng.rand() < 0.6:
        data, msk = np.ma.getdata(Z), np.ma.getmaskarray(Z)
        zk = str(rng.choice([k for k in FORMS if form(rng, data, k) is not None]))
        if zk == "squeezed" and M.m * M.T > 1:
            zk = "plain"
        else:
            Zv = form(rng, data, zk)
            if masked or rng.rand() < 0.3:
                Zv = np.ma.array(Zv, mask=msk)
    if M.m == 1 and rng.rand() < 0.5:
        # a one-dimensional sequence
        Zv = np.ma.asarray(Zv).reshape(-1)
        zk += "/1d"
        if not masked:
            Zv = np.ma.getdata(Zv)
            if rng.rand() < 0.4:
                Zv = Zv.tolist()
        ctx.saw("one_dimensional")
    a = ctx.call("construct", cls, M.make, cls)
    b = ctx.call("form", cls + " with %s %s" % (kind, keys), models.cls_of(cls), **kw)
    ctx.check(b.n_dim_state == M.n and b.n_dim_obs == M.m, "form/dims",
              "%s infers dimensions (%s, %s) from %s parameters %s; they are (%d, %d)" % (
                  cls, b.n_dim_state, b.n_dim_obs, kind, keys, M.n, M.m))
    seed = int(rng.randint(1 << 30))
    u = {ARGS[k]: M.at(k, 0).copy() for k in ARGS if k in M.tv or rng.rand() < 0.4}
    uk = "plain"
    u2 = u
    if rng.rand() < 0.5:
        uk = kind
        u2 = {k: (form(rng, v, kind) if form(rng, v, kind) is not None else v) for k, v in u.items()}
    st = (np.round(r.fm[0] * 16) / 16, M.at("P0", 0))
    st2 = tuple((form(rng, v, kind) if uk != "plain" and form(rng, v, kind) is not None
                 else v) for v in st)
    o = np.ma.getdata(Z)[0]
    o2 = form(rng, o, kind) if uk != "plain" else o
    o2 = o if o2 is None else o2
    em = None
    if M.T > M.n + M.m + 2 and obs.sum() > M.n + M.m + 1 and emc.solvable(M, Z, obs):
        em = [models.SHORT[k] for k in M.p if k not in M.tv and rng.rand() < 0.4]
    x = run_all(ctx, cls, a, Z, seed, o, st, em, u)
    tag = "/" + kind
    y = run_all(ctx, cls, b, Zv, seed, o2, st2, em, u2, tag)
    tol = 1e-8
    if kind in ("single", "half") or zk.split("/")[0] in ("single", "half"):
        # results may be in the precision of the input, if that is what the covariances are given in
        cov = {"Q", "R", "P0"} & set(keys) and kind in ("single", "half")
        tol = 1e-3 if cov or uk != "plain" else 1e-8
        if tol < 1e-6:
            ctx.saw("low_precision_exact")
    for (name, p), (_, q) in zip(x, y):
        t_ = tol if tol < 1e-4 or name != "em" else 0.05
        for s, t in zip(p, q):
            s, t = np.ma.getdata(s), np.ma.getdata(t)
            ctx.close(t, s, max(np.abs(s).max(), 1.0 if name == "loglikelihood" else 1e-3), "form/" + name,
                      "%s.%s with %s %s and %s observations" % (cls, name, kind, keys, zk), t_,
                      model=M.describe(), Z=Z)
    ctx.saw("form:" + kind)
    ctx.saw("obs-form:" + zk.split("/")[0])
    ctx.sig(cls, kind, zk, uk, "".join(sorted(keys)), M.n, M.m)


def unscented(ctx, rng):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF")
    kind = str(rng.choice(FORMS))
    if kind in ("int", "int32", "uint8", "uint32", "bool"):
        N.Q, N.R, N.P0 = 2 * np.eye(N.n), np.eye(N.m), np.eye(N.n)
        N.mu0 = np.round(N.mu0)
        if kind in ("bool", "uint8", "uint32"):
            N.Q, N.mu0 = np.eye(N.n), np.abs(np.sign(N.mu0)) if kind == "bool" else np.abs(N.mu0)
    elif kind in ("single", "half"):
        for k in ("Q", "R", "P0", "mu0"):
            v = np.round(getattr(N, k) * 16) / 16
            setattr(N, k, v + (0.25 * np.eye(len(v)) if v.ndim == 2 else 0))
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        return
    F, G = N.funcs(rng)
    kw = dict(transition_functions=F, observation_functions=G)
    few = rng.rand() < 0.3                          # only the mean in the other form
    for k, a in (("Q", "transition_covariance"), ("R", "observation_covariance"),
                 ("mu0", "initial_state_mean"), ("P0", "initial_state_covariance")):
        v = getattr(N, k)
        w = form(rng, v, kind) if rng.rand() < (0.7 if k == "mu0" or not few else 0.0) else v
        kw[a] = v if w is None else w
    Zv = Z
    if N.m == 1 and rng.rand() < 0.5:
        Zv = np.ma.asarray(Z).reshape(-1)
    elif rng.rand() < 0.5:
        w = form(rng, np.ma.getdata(Z), "list" if rng.rand() < 0.5 else "swapped")
        Zv = np.ma.array(w, mask=np.ma.getmaskarray(Z)) if np.ma.getmaskarray(Z).any() else w
    a = ctx.call("construct", cls, N.make, cls, rng)
    b = ctx.call("form", cls + " with " + kind, models.cls_of(cls), **kw)
    ctx.check(b.n_dim_state == N.n and b.n_dim_obs == N.m, "form/dims", cls + " infers wrong dimensions")
    seed = int(rng.randint(1 << 30))
    u = dict(transition_function=N.lib_f(0), observation_function=N.lib_g(0))
    st = (ref[0][0].copy(), ref[1][0].copy())
    o = np.ma.getdata(Z)[0] if rng.rand() < 0.7 else None
    o2, st2 = o, st
    if kind in ("list", "tuple", "swapped", "fortran", "strided", "reversed", "offset-view", "subclass", "readonly",
                "squeezed"):
        st2 = tuple(w if w is not None else s for s, w in ((s, form(rng, s, kind)) for s in st))
        if o is not None:
            o2 = form(rng, o, kind)
            o2 = o if o2 is None else o2
    x = run_all(ctx, cls, a, Z, seed, o, st, None, u)
    y = run_all(ctx, cls, b, Zv, seed, o2, st2, None, u, "/ukf-" + kind)
    tol = 1e-3 if kind in ("single", "half") and not few else 1e-7
    for (name, p), (_, q) in zip(x, y):
        for s, t in zip(p, q):
            s, t = np.ma.getdata(s), np.ma.getdata(t)
            ctx.close(t, s, max(np.abs(s).max(), 1.0), "form/" + name,
                      "%s.%s with %s parameters" % (cls, name, kind), tol, model=N.describe(), Z=Z)
    ctx.saw("ukf-form:" + cls)
    ctx.sig(cls, kind, N.n, N.m)


NDIM = dict(A="n", b="n", Q="n", mu0="n", P0="n", C="nm", d="m", R="m")


def infer(ctx, rng):
    """Any subset of parameters fixes the dimensions; the rest are the defaults."""
    if rng.rand() < 0.3:
        return infer_unscented(ctx, rng)
    cls = lc.pick_class(rng)
    M = models.lin(rng, tv_ok=lc.TV[cls], scale=False)
    given = [k for k in M.p if rng.rand() < rng.choice([0.15, 0.4, 0.8])]
    n = M.n if any("n" in NDIM[k] for k in given) else 1
    m = M.m if any("m" in NDIM[k] for k in given) else 1
    extra = {}
    if rng.rand() < 0.4:
        extra["n_dim_state"] = n = M.n
    if rng.rand() < 0.4:
        extra["n_dim_obs"] = m = M.m
    kw = {models.SHORT[k]: M.p[k] for k in given}
    kf = ctx.call("infer", cls, models.cls_of(cls), **kw, **extra)
    det = dict(given=sorted(given), extra=extra, shapes={k: list(M.p[k].shape) for k in given})
    ctx.check(kf.n_dim_state == n and kf.n_dim_obs == m, "infer",
              "%s infers (%s, %s) from %s, expected (%d, %d)" % (cls, kf.n_dim_state, kf.n_dim_obs,
                                                                sorted(given), n, m), **det)
    full = dict(transition_matrices=np.eye(n), transition_offsets=np.zeros(n), transition_covariance=np.eye(n),
                observation_matrices=np.eye(m, n), observation_offsets=np.zeros(m),
                observation_covariance=np.eye(m), initial_state_mean=np.zeros(n),
                initial_state_covariance=np.eye(n))
    full.update(kw)
    ref = ctx.call("infer", cls, models.cls_of(cls), **full)
    p = {k: np.array(full[a], float) for k, a in models.SHORT.items()}
    W = models.Lin(n, m, M.T, p, {k for k in M.tv if k in given}, "")
    z = models.simulate(rng, W)[1]
    r = lc.Ref(W, z, np.ones(M.T, bool))
    if max(r.Sc, r.cond_P) > lc.COND_MAX:
        return
    if m == 1 and rng.rand() < 0.5:
        z = z[:, 0]
    for name in ("filter", "smooth"):
        x, y = (ctx.call("infer", cls + "." + name, getattr(k, name), z) for k in (kf, ref))
        for s, t in zip(x, y):
            ctx.close(s, t, max(np.abs(t).max(), 1e-300), "infer/" + name,
                      "%s.%s with omitted parameters vs explicit defaults" % (cls, name), 1e-9, **det)
    x, y = (float(ctx.call("infer", cls, k.loglikelihood, z)) for k in (kf, ref))
    ctx.close(x, y, max(1.0, abs(y)), "infer/loglik", cls + ".loglikelihood with omitted parameters", 1e-9, **det)
    x, y = (ctx.call("infer", cls, k.sample, M.T, random_state=3) for k in (kf, ref))
    for s, t in zip(x, y):
        ctx.close(np.ma.getdata(s), np.ma.getdata(t), np.abs(t).max() + 1, "infer/sample",
                  cls + ".sample with omitted parameters", 1e-9, **det)
    ctx.saw("infer:" + cls)
    ctx.sig("infer", cls, "".join(sorted(given)), sorted(extra), n, m)


def infer_unscented(ctx, rng):
    cls = nl.pick(rng)
    N = nl.NL(rng, cls != "UKF", tv=False)
    attr = dict(transition_covariance="Q", observation_covariance="R", initial_state_mean="mu0",
                initial_state_covariance="P0")
    given = [a for a in attr if rng.rand() < 0.5]
    kw = {a: getattr(N, attr[a]).copy() for a in given}
    n = N.n if set(given) - {"observation_covariance"} else 1
    m = N.m if "observation_covariance" in given else 1
    if rng.rand() < 0.5:
        kw["n_dim_state"] = n = N.n
    if rng.rand() < 0.5:
        kw["n_dim_obs"] = m = N.m
    kf = ctx.call("infer", cls, models.cls_of(cls), **kw)
    ctx.check(kf.n_dim_state == n and kf.n_dim_obs == m, "infer",
              "%s infers (%s, %s) from %s, expected (%d, %d)" % (cls, kf.n_dim_state, kf.n_dim_obs,
                                                                sorted(kw), n, m))
    if n == m:
        # documented default functions: identity
        dfl = dict(transition_covariance=np.eye(n), observation_covariance=np.eye(m),
                   initial_state_mean=np.zeros(n), initial_state_covariance=np.eye(n))
        p = {attr[a]: np.array(kw.get(a, dfl[a]), float) for a in attr}
        p.update(A=np.eye(n), C=np.eye(n), b=np.zeros(n), d=np.zeros(n))
        W = models.Lin(n, n, 3, p, set(), "")
        z = models.simulate(rng, W)[1]
        r = lc.Ref(W, z, np.ones(3, bool))
        f = ctx.call("infer", cls + ".filter", kf.filter, z)
        lc.check_filter(ctx, cls, W, r, f, "infer/functions", 1e-7)
        ctx.saw("default_functions:" + cls)
    ctx.saw("infer:" + cls)
    ctx.sig("infer", cls, sorted(kw), n, m)


def refuse(ctx, rng):
    """Contradictory dimensions are a ValueError at construction."""
    if rng.rand() < 0.3:
        cls = nl.pick(rng)
        N = nl.NL(rng, cls != "UKF", tv=False)
        n2 = N.n + int(rng.choice([1, 2])) if N.n == 1 or rng.rand() < 0.5 else N.n - 1
        m2 = N.m + 1 if N.m == 1 or rng.rand() < 0.5 else N.m - 1
        vals = dict(transition_covariance=np.eye(n2), initial_state_mean=np.zeros(n2),
                    initial_state_covariance=np.eye(n2), n_dim_state=n2, n_dim_obs=m2)
        k = str(rng.choice(list(vals)))
        full = dict(transition_covariance=np.eye(N.n), observation_covariance=np.eye(N.m),
                    initial_state_mean=np.zeros(N.n), initial_state_covariance=np.eye(N.n))
        # keep one consistent clue and the contradictory one
        clue = ("observation_covariance" if k == "n_dim_obs" else
                str(rng.choice([c for c in full if c not in (k, "observation_covariance")])))
        kw = {clue: full[clue], k: vals[k]}
        if rng.rand() < 0.5:
            kw = dict(full, **kw)
        ctx.raises(ValueError, "refuse", "%s with contradictory %s" % (cls, k), models.cls_of(cls), **kw)
        ctx.saw("refuse:" + cls)
        ctx.sig("refuse", cls, k, clue, len(kw))
        return
    cls = lc.pick_class(rng)
    M = models.lin(rng, tv_ok=lc.TV[cls], scale=False)
    W = models.lin(rng, n=M.n + int(rng.choice([1, 2])), m=M.m + int(rng.choice([1, 3])), T=M.T,
                   tv_ok=lc.TV[cls], scale=False)
    if rng.rand() < 0.5:
        M, W = W, M
    k = str(rng.choice(list(NDIM) + ["n_dim_state", "n_dim_obs"]))
    if k.startswith("n_dim"):
        side = "n" if k == "n_dim_state" else "m"
        bad = {k: W.n if side == "n" else W.m}
    else:
        side = str(rng.choice(list(NDIM[k])))
        v = W.p[k]
        if k == "C":
            # contradictory in one dimension only
            v = rng.randn(*(v.shape[:-2] + ((M.m, W.n) if side == "n" else (W.m, M.n))))
        bad = {models.SHORT[k]: v}
    clues = [c for c in NDIM if side in NDIM[c] and c != k]
    c = str(rng.choice(clues))
    kw = M.kw() if rng.rand() < 0.5 else {models.SHORT[c]: M.p[c]}
    kw.update(bad)
    ctx.raises(ValueError, "refuse", "%s with contradictory %s (%s)" % (cls, k, side), models.cls_of(cls), **kw)
    ctx.saw("refuse:" + cls)
    ctx.sig("refuse", cls, k, side, c, len(kw))


def onerow(ctx, rng):
    """A single row is one time step of the observation's dimension."""
    un = rng.rand() < 0.4
    if un:
        cls = nl.pick(rng)
        N = nl.NL(rng, cls != "UKF", T=1, m=int(rng.randint(1, 6)), tv=False)
        N.scalar_obs = False
        m, n = N.m, N.n
        z = N.simulate(rng)[1]
        ref = N.reference(z, [True])
        if ref is None:
            return
        fm, fc = ref[0], ref[1]
        kf = ctx.call("construct", cls, N.make, cls, rng)
        sm = sc = 1.0
    else:
        cls = lc.pick_class(rng)
        M = models.lin(rng, T=1, m=int(rng.randint(1, 6)), tv_ok=lc.TV[cls])
        m, n = M.m, M.n
        z = models.simulate(rng, M)[1]
        r = lc.Ref(M, z, [True])
        if r.Sc > lc.COND_MAX:
            return
        fm, fc = r.fm, r.fc
        kf = ctx.call("construct", cls, M.make, cls)
        sm, sc = r.ms.max(), r.cs.max()
    k = rng.randint(4)
    Z = [z, z[0], z.tolist(), np.ma.array(z[0] if rng.rand() < 0.5 else z)][k]
    for name in ("filter", "smooth"):
        f = ctx.call("onerow", "%s.%s of one row" % (cls, name), getattr(kf, name), Z)
        a = ctx.shape(f[0], (1, n), "onerow", "%s.%s means for one row of %d values" % (cls, name, m))
        c = ctx.shape(f[1], (1, n, n), "onerow", "%s.%s covariances for one row" % (cls, name))
        ctx.close(a, fm, max(sm, np.abs(fm).max()), "onerow", "%s.%s of one row" % (cls, name), 1e-7)
        ctx.close(c, fc, max(sc, np.abs(fc).max()), "onerow", "%s.%s of one row" % (cls, name), 1e-7)
    if not un:
        l = float(ctx.call("onerow", cls, kf.loglikelihood, Z))
        ctx.close(l, r.ll, max(1.0, abs(r.ll)), "onerow", cls + ".loglikelihood of one row", 1e-7)
    ctx.saw("onerow:" + cls)
    ctx.sig("onerow", cls, n, m, k)


KINDS = {"linear": linear, "unscented": unscented, "infer": infer, "refuse": refuse, "onerow": onerow}
PLAN = {"quick": {"linear": 3000, "unscented": 1000, "infer": 1500, "refuse": 1500, "onerow": 800},
        "thorough": {"linear": 40000, "unscented": 10000, "infer": 15000, "refuse": 15000, "onerow": 8000}}
REQUIRED = (["form:" + k for k in FORMS] + ["%s:%s" % (k, c) for c in models.LINEAR + nl.UNSC
                                             for k in ("infer", "refuse", "onerow")]
            + ["ukf-form:" + c for c in nl.UNSC] + ["one_dimensional"]
            + ["default_functions:" + c for c in nl.UNSC])
ASSUMPTIONS = ["contradictory means: two parameters (or a parameter and n_dim_state/n_dim_obs) imply different "
               "dimensions; a single non-square matrix is out of scope",
               "single- and half-precision inputs may give results of their own precision"]
