"""P15: sampling draws from the model."""

import numpy as np
from scipy import stats

from .. import lincommon as lc, models, nlcommon as nl

RULE = ("samples from random models, inverted with the independently evaluated transition and observation "
        "equations into residuals and whitened with that step's covariance; ensembles of short sequences "
        "and single long sequences; distinct by class, design, dimensions, time-varying set and "
        "initial-state choice")

PMIN = 1e-11  # per test; well below 1e5 tests per run


class Tests:
    """Exact tests on arrays that must be independent N(0, 1)."""

    def __init__(self, ctx, cls, det):
        self.ctx, self.cls, self.det = ctx, cls, det

    def _p(self, p, mech, what):
        self.ctx.saw("tests")
        self.ctx.peak("smallest_p_exponent", -np.log10(max(p, 1e-300)))
        self.ctx.check(p > PMIN, mech, "%s.sample: %s (p = %.3g)" % (self.cls, what, p), **self.det)

    def two(self, lo, hi):
        return 2 * min(lo, hi)

    def normal(self, u, mech, what):
        """u [N, k]: N iid draws of k independent standard normals"""
        u = np.asarray(u, float)
        N, k = u.shape
        self.ctx.check(np.isfinite(u).all(), mech, self.cls + ".sample: residual not finite", **self.det)
        # single extreme residual: a wrong scale at one step is seen at once
        self._p(min(1.0, 2 * stats.norm.sf(np.abs(u).max()) * u.size), mech, what + ": extreme residual")
        for j in range(k):
            s = u[:, j].sum() / np.sqrt(N)
            self._p(2 * stats.norm.sf(abs(s)), mech, "%s[%d]: mean" % (what, j))
            q = (u[:, j] ** 2).sum()
            self._p(self.two(stats.chi2.cdf(q, N), stats.chi2.sf(q, N)), mech,
                    "%s[%d]: variance" % (what, j))
            if N >= 50:
                D = stats.kstest(u[:, j], "norm").statistic
                self._p(min(1.0, 2 * np.exp(-2 * N * D * D)), mech, "%s[%d]: distribution" % (what, j))
            for i in range(j):
                self.corr(u[:, i], u[:, j], mech, "%s[%d] vs [%d]" % (what, i, j))
            if N > 20:
                self.corr(u[1:, j], u[:-1, j], mech, "%s[%d]: successive draws" % (what, j), lag=True)

    def corr(self, a, b, mech, what, lag=False):
        N = len(a)
        if N < 8:
            return
        r = (a * b).sum() / np.sqrt((a * a).sum() * (b * b).sum())
        if lag:
            # not exactly t: use a Gaussian bound with slack
            p = 2 * stats.norm.sf(abs(r) * np.sqrt(N) * 0.9)
        else:
            t = r * np.sqrt((N - 1) / max(1 - r * r, 1e-300))
            p = 2 * stats.t.sf(abs(t), N - 1)
        self._p(p, mech, what + ": correlation")

    def cross(self, u, v, mech, what):
        for i in range(u.shape[1]):
            for j in range(v.shape[1]):
                self.corr(u[:, i], v[:, j], mech, "%s [%d] vs [%d]" % (what, i, j))


def white(L, r):
    return np.linalg.solve(L, r)


def tvcov(rng, n, L):
    """strongly varying covariances"""
    return np.array([models.spd(rng, n, 30, 10.0 ** rng.uniform(-2, 2)) for _ in range(L)])


class LinSim:
    """residuals of a Lin"""

    def __init__(self, M):
        self.M = M
        c = np.linalg.cholesky
        self.L0 = c(M.p["P0"])
        self.LQ = [c(M.at("Q", t)) for t in range(max(M.T - 1, 1))] if M.p["Q"].ndim == 3 else c(M.p["Q"])
        self.LR = [c(M.at("R", t)) for t in range(M.T)] if M.p["R"].ndim == 3 else c(M.p["R"])

    def x0(self, x):
        return white(self.L0, x - self.M.p["mu0"])

    def w(self, t, x0, x1):
        L = self.LQ[t] if isinstance(self.LQ, list) else self.LQ
        return white(L, x1 - self.M.at("A", t).dot(x0) - self.M.at("b", t))

    def v(self, t, x, z):
        L = self.LR[t] if isinstance(self.LR, list) else self.LR
        return white(L, z - self.M.at("C", t).dot(x) - self.M.at("d", t))


class NLSim:
    def __init__(self, N):
        self.M = self.N = N
        c = np.linalg.cholesky
        self.L0, self.LQ, self.LR = c(N.P0), c(N.Q), c(N.R)

    def x0(self, x):
        return white(self.L0, x - self.N.mu0)

    def _inv(self, fn, i, x, y, L, k):
        if self.N.additive:
            return white(L, y - fn(i, x))
        # the functions are affine in the noise: recover it
        base = fn(i, x, np.zeros(k))
        J = np.array([fn(i, x, e) - base for e in np.eye(k)]).T
        if np.linalg.cond(J) > 1e6:
            return None
        return white(L, np.linalg.solve(J, y - base))

    def w(self, t, x0, x1):
        N = self.N
        return self._inv(N.raw_f, t if len(N.A) > 1 else 0, x0, x1, self.LQ, N.n)

    def v(self, t, x, z):
        N = self.N
        return self._inv(N.raw_g, t if len(N.C) > 1 else 0, x, z, self.LR, N.m)


def start(rng, n, mu0, scale=3.0):
    """an initial state to be given, also a special one"""
    x = rng.randn(n) * scale
    u = rng.rand()
    if u < 0.2:
        x = 0 * x
    elif u < 0.3:
        x[rng.randint(n)] = 0
    elif u < 0.4:
        x = np.array(mu0, float)
    elif u < 0.5:
        x = np.rint(x)
    elif u < 0.6:
        x = x * 1e-9
    return x


def start_form(rng, x):
    """a form in which the initial state may be handed over"""
    k = rng.randint(5)
    if k == 0:
        return x.tolist()
    if k == 1 and np.array_equal(x, np.rint(x)) and np.abs(x).max() < 1e6:
        return x.astype(int)
    if k == 2:
        return np.repeat(x, 2)[::2]
    return x.copy()


def judge(ctx, rng, cls, sim, kf, design, det, sigbits):
    M = sim.M
    T, n, m = M.T, M.n, M.m
    given = None
    if rng.rand() < 0.3:
        given = start(rng, n, M.mu0 if hasattr(M, "mu0") else M.p["mu0"])
    tests = Tests(ctx, cls, det)

    def draw(rs):
        kw = {} if given is None else {"initial_state": start_form(rng, given)}
        x, z = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=rs, **kw)
        x = ctx.shape(x, (T, n), "sample", cls + ".sample states")
        ctx.check(not np.ma.getmaskarray(z).any(), "sample", "observations are not masked")
        z = ctx.shape(z, (T, m), "sample", cls + ".sample observations")
        if given is not None:
            ctx.check(np.array_equal(x[0], given), "initial-state",
                      cls + ".sample does not start at the given initial state", **det)
            ctx.saw("initial_state_given")
        ctx.saw("sequences")
        return x, z

    if design == "long":
        x, z = draw(int(rng.randint(1 << 30)))
        if np.isfinite(x).all() and np.abs(x).max() > 1e6:
            ctx.saw("diverged")  # the reference cannot recover the noise from rounded states
            return
        W = [sim.w(t, x[t], x[t + 1]) for t in range(T - 1)]
        V = [sim.v(t, x[t], z[t]) for t in range(T)]
        k = [t for t in range(T - 1) if W[t] is not None and V[t + 1] is not None]
        if len(k) < 20:
            return
        W = np.array([W[t] for t in k]); V = np.array([V[t + 1] for t in k])
        tests.normal(W, "transition", "transition noise")
        tests.normal(V, "observation", "observation noise")
        tests.cross(W, V, "independence", "transition vs observation noise")
        # observation noise of a step vs the transition noise that follows it
        tests.cross(W[1:], V[:-1], "independence", "observation noise vs next transition noise")
    else:
        K = 150
        rs = np.random.RandomState(int(rng.randint(1 << 30))) if rng.rand() < 0.7 else None
        seqs = [draw(rs if rs is not None else int(rng.randint(1 << 30))) for _ in range(K)]
        X0 = np.array([sim.x0(x[0]) for x, _ in seqs])
        if given is None:
            tests.normal(X0, "initial", "initial state")
            ctx.saw("initial_drawn")
        prev = X0 if given is None else None
        for t in range(T):
            V = [sim.v(t, x[t], z[t]) for x, z in seqs]
            if all(v is not None for v in V):
                V = np.array(V)
                tests.normal(V, "observation", "observation noise at %d" % t)
                if prev is not None:
                    tests.cross(V, prev, "independence", "observation noise at %d vs last draw" % t)
            if t < T - 1:
                W = [sim.w(t, x[t], x[t + 1]) for x, _ in seqs]
                if all(w is not None for w in W):
                    W = np.array(W)
                    tests.normal(W, "transition", "transition noise at %d" % t)
                    if prev is not None:
                        tests.cross(W, prev, "independence", "transition noise at %d vs last draw" % t)
                    prev = W
    ctx.saw("%s:%s" % (design, cls))
    ctx.sig(design, cls, *sigbits, given is None)


def linear(ctx, rng):
    cls = lc.pick_class(rng)
    design = "long" if rng.rand() < 0.5 else "ensemble"
    T = (1000 if rng.rand() < 0.9 else 6000) if design == "long" else int(rng.randint(1, 4))
    n, m = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    M = models.lin(rng, n=n, m=m, T=T, tv_ok=("A", "b", "C", "d") if cls != "KalmanFilter" else lc.TV[cls])
    if T > 10:
        # stay bounded also with per-step matrices
        M.p["A"] = M.p["A"] * 0.9
    for k, d, L in (("Q", n, T - 1), ("R", m, T)):
        if k in M.tv and rng.rand() < 0.7:
            M.p[k] = tvcov(rng, d, max(L, 1) + rng.randint(0, 3))
    kf = ctx.call("construct", cls, M.make, cls)
    judge(ctx, rng, cls, LinSim(M), kf, design, dict(model=M.describe()),
          (n, m, "".join(sorted(M.tv))))
    if "Q" in M.tv or "R" in M.tv:
        ctx.saw("tv_cov")


def unscented(ctx, rng):
    cls = nl.pick(rng)
    design = "long" if rng.rand() < 0.5 else "ensemble"
    T = (500 if rng.rand() < 0.9 else 6000) if design == "long" else int(rng.randint(1, 4))
    N = nl.NL(rng, cls != "UKF", T=T, n=int(rng.randint(1, 5)), m=int(rng.randint(1, 5)),
              tv=bool(rng.rand() < 0.4))
    if N.n > 1 and rng.rand() < 0.4:
        N.Q = models.spd(rng, N.n, kind="corr")
    if N.m > 1 and rng.rand() < 0.4:
        N.R = models.spd(rng, N.m, kind="corr")
    N.A = [0.85 * a for a in N.A]
    if T > 10 and N.phi == "abs":
        N.phi = "sin"  # grows without bound: the residuals would be rounding errors
    kf = ctx.call("construct", cls, N.make, cls, rng)
    judge(ctx, rng, cls, NLSim(N), kf, design, dict(model=N.describe()), (N.n, N.m, N.tvf, N.tvg))


def quiet(ctx, rng):
    """No noise: the recursion is exact. Singular noise stays in its range."""
    un = rng.rand() < 0.4
    if un:
        cls = nl.pick(rng)
        N = nl.NL(rng, cls != "UKF", T=int(rng.randint(1, 7)))
        n, m, T = N.n, N.m, N.T
        Z = np.zeros
        N.Q, N.R = Z((n, n)), Z((m, m))
        x0 = start(rng, n, N.mu0, 1.0)
        zero0 = rng.rand() < 0.5
        if zero0:
            N.P0 = Z((n, n))
        kf = ctx.call("construct", cls, N.make, cls, rng)
        mu0 = N.mu0
        f = (lambda t, x: N.f(t)(x)) if N.additive else (lambda t, x: N.f(t)(x, Z(n)))
        g = (lambda t, x: N.g(t)(x)) if N.additive else (lambda t, x: N.g(t)(x, Z(m)))
        det = dict(model=N.describe())
    else:
        cls = lc.pick_class(rng)
        M = models.lin(rng, tv_ok=lc.TV[cls], exact_ok=False)
        n, m, T = M.n, M.m, M.T
        for k in "QR":
            M.p[k] = 0 * M.p[k]
        zero0 = rng.rand() < 0.5
        x0 = start(rng, n, M.p["mu0"], 1.0) * M.sx
        if zero0:
            M.p["P0"] = 0 * M.p["P0"]
        kf = ctx.call("construct", cls, M.make, cls)
        mu0 = M.p["mu0"]
        f = lambda t, x: M.at("A", t).dot(x) + M.at("b", t)  # noqa: E731
        g = lambda t, x: M.at("C", t).dot(x) + M.at("d", t)  # noqa: E731
        det = dict(model=M.describe())
    kw = {}
    if not zero0:
        kw["initial_state"] = start_form(rng, x0)
        ctx.saw("start:zero" if not x0.any() else "start")
    x, z = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=int(rng.randint(1 << 30)), **kw)
    x = ctx.shape(x, (T, n), "sample", "states")
    z = ctx.shape(z, (T, m), "sample", "observations")
    ctx.close(x[0], mu0 if zero0 else x0, np.abs(x[0]).max() + 1e-300, "quiet/initial",
              cls + ".sample first state", 1e-12, **det)
    for t in range(T):
        if t:
            r = f(t - 1, x[t - 1])
            ctx.close(x[t], r, max(np.abs(x).max(), np.abs(r).max()) + 1e-300, "quiet/transition",
                      cls + ".sample without transition noise", 1e-11, t=t, **det)
        r = np.atleast_1d(g(t, x[t]))
        ctx.close(z[t], r, max(np.abs(z).max(), np.abs(r).max(), np.abs(x).max() if un else 0) + 1e-300,
                  "quiet/observation", cls + ".sample without observation noise", 1e-11, t=t, **det)
    ctx.saw("quiet:" + cls)
    ctx.sig("quiet", cls, n, m, T, zero0)


def singular(ctx, rng):
    """Noise confined to a subspace."""
    cls = str(rng.choice(["KalmanFilter", "AUKF"]))
    n = int(rng.randint(2, 6))
    T = 40
    r = int(rng.randint(1, n))
    B = rng.randn(n, r)
    Q = B.dot(B.T)
    P = np.eye(n) - B.dot(np.linalg.pinv(B))
    A, b = 0.9 * np.linalg.qr(rng.randn(n, n))[0], rng.randn(n)
    if cls == "KalmanFilter":
        kf = ctx.call("construct", cls, models.cls_of(cls), A, np.eye(n), Q, np.eye(n), b)
    else:
        kf = ctx.call("construct", cls, models.cls_of(cls), lambda x: A.dot(x) + b, lambda x: x, Q, np.eye(n))
    x, z = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=int(rng.randint(1 << 30)))
    w = x[1:] - x[:-1].dot(A.T) - b
    s = np.sqrt(np.abs(Q).max())
    ctx.close(w.dot(P), np.zeros((T - 1, n)), s, "singular", cls + ".sample leaves the range of the noise",
              1e-5, Q=Q)
    u = np.linalg.lstsq(B, w.T, rcond=None)[0].T
    Tests(ctx, cls, dict(Q=Q)).normal(u, "transition", "transition noise")
    ctx.saw("singular")
    ctx.sig("singular", cls, n, r)


def distinct(ctx, rng):
    """Continuous noise: draws of many differently seeded calls never repeat."""
    K, T = 400, 3
    un = rng.rand() < 0.4
    if un:
        cls = nl.pick(rng)
        N = nl.NL(rng, cls != "UKF", T=T, n=int(rng.randint(1, 4)), m=int(rng.randint(1, 4)), tv=False)
        if rng.rand() < 0.5:
            N.P0 = N.Q.copy()
        if N.m == N.n and rng.rand() < 0.5:
            N.R = N.Q.copy()
        kf, sim, det = ctx.call("construct", cls, N.make, cls, rng), NLSim(N), dict(model=N.describe())
    else:
        cls = lc.pick_class(rng)
        M = models.lin(rng, n=int(rng.randint(1, 4)), m=int(rng.randint(1, 4)), T=T, tv_ok=("b", "d"),
                       exact_ok=False)
        if rng.rand() < 0.5:
            M.p["P0"] = M.p["Q"].copy()
        if M.m == M.n and rng.rand() < 0.5:
            M.p["R"] = M.p["Q"].copy()
        kf, sim, det = ctx.call("construct", cls, M.make, cls), LinSim(M), dict(model=M.describe())
    base = int(rng.randint(1 << 28))
    one = np.random.RandomState(base) if rng.rand() < 0.3 else None
    seqs = [ctx.call("sample", cls + ".sample", kf.sample, T, random_state=one or base + 37 * i)
            for i in range(K)]
    groups = {"initial state": [sim.x0(np.asarray(x)[0]) for x, _ in seqs]}
    for t in range(T):
        groups["observation noise at %d" % t] = [sim.v(t, np.asarray(x)[t], np.asarray(z)[t]) for x, z in seqs]
        if t < T - 1:
            groups["transition noise at %d" % t] = [sim.w(t, np.asarray(x)[t], np.asarray(x)[t + 1])
                                                    for x, _ in seqs]
    for what, g in groups.items():
        if any(v is None for v in g):
            continue
        g = np.asarray(g, float)
        for j in range(g.shape[1]):
            # rounding of the residuals is far below, chance spacings far above
            same = int((np.diff(np.sort(g[:, j])) < 1e-12).sum())
            ctx.check(same < 3, "distinct", "%s.sample: %d of %d independent draws of the %s repeat" % (
                cls, same, K, what), component=j, **det)
    ctx.saw("distinct:" + ("one generator" if one is not None else "many seeds"))
    ctx.sig("distinct", cls, g.shape[1], one is None)


KINDS = {"linear": linear, "unscented": unscented, "quiet": quiet, "singular": singular, "distinct": distinct}
PLAN = {"quick": {"linear": 500, "unscented": 300, "quiet": 900, "singular": 60, "distinct": 40},
        "thorough": {"linear": 3000, "unscented": 2000, "quiet": 9000, "singular": 800, "distinct": 600}}
REQUIRED = (["%s:%s" % (d, c) for d in ("long", "ensemble", "quiet") for c in models.LINEAR + nl.UNSC]
            + ["initial_state_given", "initial_drawn", "tv_cov", "singular", "tests", "distinct:many seeds",
               "distinct:one generator"])
ASSUMPTIONS = ["each statistical test raises an alarm with probability below 1e-11 on a correct sampler; "
               "the seeds are fixed by VERIF_SEED"]
