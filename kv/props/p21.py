"""P21: results do not depend on units, ordering or coordinates."""

import numpy as np

from .. import emcommon as em, lincommon as lc, models, nlcommon as nl
from ..core import CaseAbort

RULE = ("a model and the same model in other coordinates (units, order, signs, rotation, shear, origin, "
        "whitened observations) run side by side; distinct by class, operation, transformation, dimensions, "
        "time-varying set, missing pattern")

KIND_S = ("units", "mixed-units", "permute", "signs", "rotate", "general", "shift", "everything")


def matrix(rng, k, kind):
    """Invertible k x k matrix and the decimal exponent of its overall size."""
    e = 0.0
    S = np.eye(k)
    if kind in ("units", "everything"):
        e = float(rng.uniform(-6, 6) if rng.rand() < 0.7 else rng.uniform(-12, 12))
    if kind in ("mixed-units", "everything"):
        S = np.diag(10.0 ** rng.uniform(-1.5, 1.5, k))
    if kind in ("permute", "everything"):
        S = S[rng.permutation(k)]
    if kind in ("signs", "everything"):
        S = S * rng.choice([-1.0, 1.0], k)
    if kind == "rotate":
        S = np.linalg.qr(rng.randn(k, k))[0]
    if kind == "general":
        S = np.linalg.qr(rng.randn(k, k))[0].dot(np.diag(rng.uniform(0.3, 3, k))).dot(
            np.linalg.qr(rng.randn(k, k))[0])
    return S * 10.0 ** e, e


class Map:
    """x' = S x + s, z' = U z + u."""

    def __init__(self, rng, M, kinds=KIND_S, state_shift=True):
        n, m = M.n, M.m
        self.ks, self.ko = str(rng.choice(kinds)), str(rng.choice(kinds))
        self.S, es = matrix(rng, n, self.ks)
        self.U, eo = matrix(rng, m, self.ko)
        if rng.rand() < 0.2:
            self.ko = "identity"
            self.U, eo = np.eye(m), 0.0
        elif rng.rand() < 0.2:
            self.ks = "identity"
            self.S, es = np.eye(n), 0.0
        self.s, self.u = np.zeros(n), np.zeros(m)
        if self.ks in ("shift", "everything") and state_shift:
            self.s = 5 * rng.randn(n) * 10.0 ** es
        if self.ko in ("shift", "everything"):
            self.u = 5 * rng.randn(m) * 10.0 ** eo
        self.es = es
        self.inv()

    def inv(self):
        self.Si, self.Ui = np.linalg.inv(self.S), np.linalg.inv(self.U)

    def whiten(self, R):
        """Observations in units in which their noise is white."""
        self.ko = "whiten"
        self.U = np.linalg.inv(np.linalg.cholesky(R))
        self.u = np.zeros(len(R))
        self.inv()

    def model(self, M):
        S, Si, U = self.S, self.Si, self.U
        p = M.p
        A = np.matmul(np.matmul(S, p["A"]), Si)
        C = np.matmul(np.matmul(U, p["C"]), Si)
        sym = lambda X: 0.5 * (X + np.swapaxes(X, -1, -2))  # noqa: E731
        b = p["b"].dot(S.T)
        d = p["d"].dot(U.T) + self.u
        if np.any(self.s):
            b = b + self.s - A.dot(self.s)
            d = d - C.dot(self.s)
        W = M.copy(A=A, C=C, b=b, d=d, Q=sym(np.matmul(np.matmul(S, p["Q"]), S.T)),
                   R=sym(np.matmul(np.matmul(U, p["R"]), U.T)), mu0=S.dot(p["mu0"]) + self.s,
                   P0=sym(S.dot(p["P0"]).dot(S.T)))
        W.T = M.T
        W.tv = {k for k, v in W.p.items() if v.ndim > (1 if k in ("b", "d", "mu0") else 2)}
        return W

    def obs(self, Z):
        data, msk = np.array(np.ma.getdata(Z), float), np.ma.getmaskarray(Z)
        rows = msk.any(axis=1)
        data = np.where(rows[:, None], 0.0, data)
        data = data.dot(self.U.T) + self.u
        if not isinstance(Z, np.ma.MaskedArray):
            return data
        # a missing row stays missing whichever of its components is masked
        return np.ma.array(data, mask=np.repeat(rows[:, None], data.shape[1], axis=1))

    def back_mean(self, x):
        return (np.ma.getdata(x) - self.s).dot(self.Si.T)

    def back_cov(self, P):
        return np.matmul(np.matmul(self.Si, P), self.Si.T)

    def tag(self):
        return "%s/%s" % (self.ks, self.ko)


def pair(ctx, F, got, ref, scale_m, scale_c, mech, what, tol=1e-8, **detail):
    m, c = got
    ctx.close(F.back_mean(m), np.ma.getdata(ref[0]), scale_m, mech + "-mean", what + " mean", tol, **detail)
    ctx.close(F.back_cov(np.asarray(c)), ref[1], scale_c, mech + "-cov", what + " covariance", tol, **detail)


def long(ctx, rng):
    """Long series, mostly in far units."""
    linear(ctx, rng, True)


def linear(ctx, rng, long=False):
    opt = dict(T=int(rng.choice([300, 600, 1200]))) if long else {}
    cls, M, Z, obs, mk = lc.make_case(rng, scale=False, longer=False, exact_ok=False, n=int(rng.randint(1, 5)),
                                      m=int(rng.randint(1, 5)), **opt)
    if long:
        M.p["A"] = M.p["A"] * 0.9
    r = lc.Ref(M, Z, obs)
    if max(r.Sc, r.cond_P) > 2e3:
        ctx.saw("skipped:ill-conditioned")
        return
    F = Map(rng, M, kinds=("units", "everything", "units", "general") if long else KIND_S)
    if M.p["R"].ndim == 2 and rng.rand() < 0.2:
        F.whiten(M.p["R"])
    W, Zt = F.model(M), F.obs(Z)
    a = ctx.call("construct", cls, M.make, cls)
    b = ctx.call("construct", cls, W.make, cls)
    what = "%s in other coordinates (%s): " % (cls, F.tag())
    sm = max(r.sms, np.abs(F.Si.dot(F.s)).max())
    sc = r.scs
    det = dict(model=M.describe(), Z=Z, S=F.S, U=F.U, s=F.s, u=F.u)
    pair(ctx, F, ctx.call("filter", what, b.filter, Zt), ctx.call("filter", cls, a.filter, Z), sm, sc, "filter",
         what + "filtered", **det)
    pair(ctx, F, ctx.call("smooth", what, b.smooth, Zt), ctx.call("smooth", cls, a.smooth, Z), sm, sc, "smooth",
         what + "smoothed", 1e-8, **det)
    la = float(ctx.call("loglik", cls, a.loglikelihood, Z))
    lb = float(ctx.call("loglik", what, b.loglikelihood, Zt))
    N = int(obs.sum())
    shift = -N * np.linalg.slogdet(F.U)[1]
    ctx.close(lb, la + shift, max(N * M.m, abs(la), abs(shift), 1.0), "loglikelihood",
              what + "log-likelihood, shifted by the change of volume", 1e-9, **det)
    t = int(rng.randint(M.T))
    args = {"transition_matrix": "A", "transition_offset": "b", "transition_covariance": "Q",
            "observation_matrix": "C", "observation_offset": "d", "observation_covariance": "R"}
    if t + 1 < M.T:
        out = []
        for kf, X, z in ((a, M, Z), (b, W, Zt)):
            kw = {k: X.at(v, t + 1 if v in "CdR" else t) for k, v in args.items()
                  if v in X.tv or rng.rand() < 0.3}
            m0, P0 = (r.fm[t], r.fc[t]) if kf is a else (F.S.dot(r.fm[t]) + F.s, F.S.dot(r.fc[t]).dot(F.S.T))
            out.append(ctx.call("update", what, kf.filter_update, np.array(m0, float), np.array(P0, float), z[t + 1],
                                **kw))
        pair(ctx, F, out[1], out[0], sm, sc, "update", what + "updated", **det)
    ctx.saw("linear:" + cls)
    if long:
        ctx.saw("long")
    ctx.saw("state:" + F.ks)
    ctx.saw("obs:" + F.ko)
    if abs(F.es) > 3:
        ctx.saw("extreme")
    ctx.sig(cls, F.tag(), M.n, M.m, "".join(sorted(M.tv)), mk)


def learn(ctx, rng):
    """EM commutes with changes of coordinates."""
    cls = lc.pick_class(rng)
    n, m = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    T = int(rng.choice([10, 16, 25]))
    M = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    G = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    z = models.simulate(rng, G if rng.rand() < 0.5 else M)[1]
    Z, obs, mk = models.observations(rng, M, z, kind=str(rng.choice(["none", "rows", "partial", "first", "last"])))
    if obs.sum() < n + m + 2:
        return
    ev, keys = em.subset(rng)
    F = Map(rng, M, state_shift=not (keys & {"A", "C"}))
    if rng.rand() < 0.2:
        F.whiten(M.p["R"])
    W, Zt = F.model(M), F.obs(Z)
    a = ctx.call("construct", cls, M.make, cls)
    b = ctx.call("construct", cls, W.make, cls)
    what = "%s.em(%s) in other coordinates (%s): " % (cls, sorted(keys), F.tag())
    cur, logs = M, 0
    for it in range(int(rng.randint(1, 4))):
        try:
            mom = em.moments(cur, Z, obs)
        except np.linalg.LinAlgError:
            ctx.saw("stopped:degenerate")
            break
        r, x, V, _ = mom
        Exx = V + x[:, :, None] * x[:, None, :]
        amp = max(np.linalg.cond(Exx[obs].sum(axis=0)), np.linalg.cond(Exx[:-1].sum(axis=0)))
        if not max(r.Sc, r.cond_P) < 1e3 or not amp < 3e3:
            ctx.saw("skipped:ill-conditioned")
            break
        la = float(ctx.call("loglik", cls, a.loglikelihood, Z))
        lb = float(ctx.call("loglik", what, b.loglikelihood, Zt))
        shift = -int(obs.sum()) * np.linalg.slogdet(F.U)[1]
        ctx.close(lb, la + shift, max(obs.sum() * m, abs(la), abs(shift)), "em-loglikelihood",
                  what + "log-likelihood before iteration %d" % it, 1e-6)
        ctx.call("em", what, a.em, Z, n_iter=1, em_vars=ev)
        ctx.call("em", what, b.em, Zt, n_iter=1, em_vars=ev)
        cur, oth = em.params_of(a, M), em.params_of(b, M)
        xs = max(np.abs(x).max(), np.sqrt(np.abs(V).max()), np.abs(F.Si.dot(F.s)).max())
        zs = max(np.abs(np.ma.getdata(Z)[obs]).max(), np.abs(cur.p["C"]).max() * xs, np.abs(F.Ui.dot(F.u)).max())
        q, q2 = cur.p, oth.p
        A = F.Si.dot(q2["A"]).dot(F.S)
        C = F.Ui.dot(q2["C"]).dot(F.S)
        got = dict(A=A, C=C, b=(q2["b"] - F.s + q2["A"].dot(F.s)).dot(F.Si.T),
                   d=(q2["d"] - F.u + q2["C"].dot(F.s)).dot(F.Ui.T), Q=F.back_cov(q2["Q"]),
                   R=F.Ui.dot(q2["R"]).dot(F.Ui.T), mu0=F.back_mean(q2["mu0"]), P0=F.back_cov(q2["P0"]))
        xa = max(xs, np.abs(q["A"]).max() * xs)
        sc = dict(A=max(1.0, np.abs(q["A"]).max()), C=max(zs / xs, np.abs(q["C"]).max()), b=xa, d=zs, Q=xa * xa,
                  R=zs * zs, mu0=xs, P0=max(xs * xs, np.abs(q["P0"]).max()))
        for k in got:
            ctx.close(got[k], q[k], max(sc[k], np.abs(q[k]).max()), "em/" + k,
                      what + "%s after iteration %d" % (em.ATTR[k], it), 1e-5, model=M.describe(), Z=Z, S=F.S, U=F.U)
            if k in keys:
                ctx.saw("learned:" + k)
        ok = True
        for k in ("Q", "R", "P0"):
            w = np.linalg.eigvalsh(0.5 * (q[k] + q[k].T))
            ok = ok and w[0] > 1e-3 * w[-1]
        if not ok:
            ctx.saw("stopped:degenerate")
            break
        logs += 1
    if logs:
        ctx.saw("learn:" + cls)
        ctx.sig("learn", cls, F.tag(), n, m, "".join(sorted(keys)), mk)


def unscented(ctx, rng):
    """Nonlinear filters: units, signs and origins of the state, any coordinates of the observation."""
    cls = nl.pick(rng)
    affine = rng.rand() < 0.4
    N = nl.NL(rng, cls != "UKF", affine=affine)
    N.scalar_obs = False
    Z, obs, mk = N.observations(rng)
    ref = N.reference(Z, obs)
    if ref is None:
        ctx.saw("degenerate")
        return
    diag = ("units", "mixed-units", "signs", "shift")
    F = Map(rng, N, kinds=KIND_S if affine else diag)
    if not affine and cls != "UKF":
        F.U, eo = matrix(rng, N.m, str(rng.choice(KIND_S)))
        F.ko = "free"
        F.u = rng.randn(N.m) * 10.0 ** eo
        F.inv()

    def fmap(f):
        if cls == "UKF":
            return lambda x, w: F.S.dot(f(F.Si.dot(x - F.s), F.Si.dot(w))) + F.s
        return lambda x: F.S.dot(f(F.Si.dot(x - F.s))) + F.s

    def gmap(g):
        if cls == "UKF":
            return lambda x, v: F.U.dot(g(F.Si.dot(x - F.s), F.Ui.dot(v))) + F.u
        return lambda x: F.U.dot(g(F.Si.dot(x - F.s))) + F.u

    def pack(fs):
        return fs[0] if len(fs) == 1 else fs

    fs = pack([fmap(N.lib_f(i)) for i in range(len(N.A))])
    gs = pack([gmap(N.lib_g(i)) for i in range(len(N.C))])
    sym = lambda X: 0.5 * (X + X.T)  # noqa: E731
    kw = dict(transition_functions=fs, observation_functions=gs, transition_covariance=sym(F.S.dot(N.Q).dot(F.S.T)),
              observation_covariance=sym(F.U.dot(N.R).dot(F.U.T)), initial_state_mean=F.S.dot(N.mu0) + F.s,
              initial_state_covariance=sym(F.S.dot(N.P0).dot(F.S.T)))
    a = ctx.call("construct", cls, N.make, cls)
    b = ctx.call("construct", cls, models.cls_of(cls), **kw)
    Zt = F.obs(Z)
    what = "%s in other coordinates (%s): " % (cls, F.tag())
    sm = max(np.abs(ref[0]).max(), np.abs(ref[2]).max(), np.abs(F.Si.dot(F.s)).max(), 1.0)
    sc = max(np.abs(ref[1]).max(), np.abs(ref[3]).max(), np.abs(N.P0).max())
    pair(ctx, F, ctx.call("filter", what, b.filter, Zt), ctx.call("filter", cls, a.filter, Z), sm, sc, "ukf-filter",
         what + "filtered", 1e-8)
    pair(ctx, F, ctx.call("smooth", what, b.smooth, Zt), ctx.call("smooth", cls, a.smooth, Z), sm, sc, "ukf-smooth",
         what + "smoothed", 1e-7)
    t = int(rng.randint(N.T))
    if t + 1 < N.T:
        f, g = N.lib_f(t), N.lib_g(t + 1)
        m0, P0 = np.array(ref[0][t], float), np.array(ref[1][t], float)
        x = ctx.call("update", cls, a.filter_update, m0, P0, Z[t + 1], transition_function=f, observation_function=g)
        y = ctx.call("update", what, b.filter_update, F.S.dot(m0) + F.s, sym(F.S.dot(P0).dot(F.S.T)), Zt[t + 1],
                     transition_function=fmap(f), observation_function=gmap(g))
        pair(ctx, F, y, x, sm, sc, "ukf-update", what + "updated", 1e-8)
    ctx.saw("unscented:" + cls)
    if abs(F.es) > 3:
        ctx.saw("extreme")
    ctx.sig(cls, F.tag(), N.n, N.m, affine, mk)


def draws(ctx, rng):
    """Samples scale with the units (powers of two: the arithmetic is the same)."""
    cls = lc.pick_class(rng)
    M = models.lin(rng, T=int(rng.choice([1, 2, 6])), tv_ok=lc.TV[cls], scale=False)
    s, u = 2.0 ** int(rng.randint(-20, 21)), 2.0 ** int(rng.randint(-20, 21))
    p = M.p
    W = M.copy(b=s * p["b"], Q=s * s * p["Q"], mu0=s * p["mu0"], P0=s * s * p["P0"], d=u * p["d"], R=u * u * p["R"],
               C=u / s * p["C"])
    W.T = M.T
    seed = int(rng.randint(1 << 30))
    a = ctx.call("sample", cls, M.make(cls).sample, M.T, random_state=seed)
    b = ctx.call("sample", cls, W.make(cls).sample, M.T, random_state=seed)
    what = "%s.sample in units 2^%d/2^%d: " % (cls, np.log2(s), np.log2(u))
    ctx.close(np.ma.getdata(b[0]) / s, np.ma.getdata(a[0]), max(np.abs(a[0]).max(), 1e-3), "sample", what + "states",
              1e-9, model=M.describe())
    ctx.close(np.ma.getdata(b[1]) / u, np.ma.getdata(a[1]), max(np.abs(a[1]).max(), 1e-3), "sample",
              what + "observations", 1e-9, model=M.describe())
    ctx.saw("draws:" + cls)
    ctx.sig("draws", cls, M.n, M.m, int(np.log2(s)), int(np.log2(u)))


def ratio(ctx, rng):
    """One fixed problem whose two components are measured in units 1e9 apart (an open finding for the filters
    that cut off small singular values)."""
    r = np.random.RandomState(11)
    A, C = np.array([[0.9, 0.2], [-0.1, 0.8]]), np.array([[1.0, 0.3], [0.2, 1.0]])
    Q, R, P0 = (models.spd(r, 2, 10.0, kind="full") for _ in range(3))
    Z = r.randn(6, 2)
    S = np.array([1.0, 1e-9])
    o = np.outer(S, S)

    def build(cls, S, o):
        A2, C2 = A * np.outer(S, 1 / S), C * np.outer(S, 1 / S)
        if cls in models.LINEAR:
            return models.cls_of(cls)(A2, C2, Q * o, R * o, initial_state_mean=np.zeros(2), initial_state_covariance=P0 * o)
        noise = cls == "UKF"
        return models.cls_of(cls)((lambda x, w: A2.dot(x) + w) if noise else A2.dot,
                                  (lambda x, v: C2.dot(x) + v) if noise else C2.dot,
                                  Q * o, R * o, np.zeros(2), P0 * o)

    for cls in models.LINEAR + nl.UNSC:
        for op in ("filter", "smooth"):
            mech = "component-ratio-1e9:%s.%s" % (cls, op)
            try:
                a = ctx.call(mech, cls, getattr(build(cls, np.ones(2), 1.0), op), Z)
                b = ctx.call(mech, cls, getattr(build(cls, S, o), op), Z * S)
                ctx.close(np.ma.getdata(b[0]) / S, np.ma.getdata(a[0]), 1.0, mech, mech + " means", 1e-6)
                ctx.close(b[1] / o, a[1], 1.0, mech, mech + " covariances", 1e-6)
            except CaseAbort:  # recorded; go on with the next combination
                pass
    ctx.saw("ratio")


KINDS = {"linear": linear, "long": long, "ratio": ratio, "learn": learn, "unscented": unscented, "draws": draws}
PLAN = {"quick": {"ratio": 1, "linear": 3200, "long": 80, "learn": 900, "unscented": 1800, "draws": 900},
        "thorough": {"ratio": 1, "linear": 90000, "long": 2000, "learn": 20000, "unscented": 50000, "draws": 20000}}
REQUIRED = (["%s:%s" % (k, c) for k in ("linear", "learn", "draws") for c in models.LINEAR] +
            ["unscented:" + c for c in nl.UNSC] + ["state:" + k for k in KIND_S] +
            ["obs:" + k for k in KIND_S + ("whiten",)] + ["learned:" + k for k in em.ATTR] + ["extreme", "long"])
ASSUMPTIONS = ["units of two components of one vector differ by at most a factor 1000 (one fixed problem with 1e9 is a known finding)",
               "nonlinear unscented results are compared only under changes that map sigma points to sigma points"]
