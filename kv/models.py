"""Workload generator: linear-Gaussian models, observation sequences, missing patterns.

Everything is generated from a numpy RandomState; the generated `Lin` carries
the *truth* (resolved parameters) that the oracles use, and the keyword
arguments handed to the library, which may omit parameters that have their
documented default value.
"""

import numpy as np

LINEAR = ("KalmanFilter", "CholeskyKalmanFilter", "BiermanKalmanFilter")
PARAMS = (
    "transition_matrices", "observation_matrices", "transition_covariance",
    "observation_covariance", "transition_offsets", "observation_offsets",
    "initial_state_mean", "initial_state_covariance",
)
SHORT = dict(A="transition_matrices", C="observation_matrices", Q="transition_covariance",
             R="observation_covariance", b="transition_offsets", d="observation_offsets",
             mu0="initial_state_mean", P0="initial_state_covariance")


def cls_of(name):
    import pykalman
    import pykalman.sqrt as sq

    return {
        "KalmanFilter": pykalman.KalmanFilter,
        "CholeskyKalmanFilter": sq.CholeskyKalmanFilter,
        "BiermanKalmanFilter": sq.BiermanKalmanFilter,
        "UKF": pykalman.UnscentedKalmanFilter,
        "AUKF": pykalman.AdditiveUnscentedKalmanFilter,
        "SqrtAUKF": sq.AdditiveUnscentedKalmanFilter,
    }[name]


def spd(rng, n, cond=30.0, scale=1.0, kind=None):
    """Random symmetric positive definite matrix, condition number <= cond."""
    kind = kind or rng.choice(["full", "full", "diag", "eye", "corr"])
    if kind == "eye":
        return scale * np.eye(n)
    ev = scale * np.exp(rng.uniform(-np.log(cond), 0, size=n))
    if kind == "diag":
        return np.diag(ev)
    q, _ = np.linalg.qr(rng.randn(n, n))
    m = (q * ev).dot(q.T)
    m = 0.5 * (m + m.T)
    if kind == "corr" and n > 1:
        # strongly correlated noise
        m = scale * (0.9 * np.ones((n, n)) + 0.1 * np.diag(rng.uniform(0.5, 1.5, n)) * 2)
        s = rng.choice([-1.0, 1.0], size=n)
        m = m * np.outer(s, s)
    return m


def trans(rng, n, bounded=False):
    kind = rng.choice(["stable", "rot", "eye", "unstable", "integ", "singular", "perm"])
    if bounded and kind in ("unstable", "integ"):
        kind = "stable"
    if kind == "eye":
        return np.eye(n), kind
    if kind == "integ":
        return np.eye(n) + 0.3 * np.eye(n, k=1), kind
    if kind == "perm":
        return np.eye(n)[rng.permutation(n)] * rng.choice([-1.0, 1.0], size=n), kind
    m = rng.randn(n, n)
    if kind == "rot":
        return np.linalg.qr(m)[0], kind
    if kind == "singular" and n > 1:
        m[:, rng.randint(n)] = 0.0
    m = m / max(0.5 * np.linalg.norm(m, 2), np.max(np.abs(np.linalg.eigvals(m))))
    if kind == "singular":
        return 0.9 * m, kind
    return m * (1.15 if kind == "unstable" else rng.uniform(0.3, 0.95)), kind


def obsm(rng, m, n):
    kind = rng.choice(["full", "full", "select", "eye", "zerorow", "dup"])
    M = rng.randn(m, n)
    if kind == "eye":
        M = np.eye(m, n)
    elif kind == "select":
        M = np.eye(n)[rng.randint(n, size=m)]
    elif kind == "zerorow":
        M[rng.randint(m)] = 0.0
    elif kind == "dup" and m > 1:
        M[-1] = M[0]
    return M, kind


class Lin:
    """A linear-Gaussian model with the truth of every parameter."""

    def __init__(self, n, m, T, p, tv, tags):
        self.n, self.m, self.T, self.p, self.tv, self.tags = n, m, T, p, tv, tags
        self.sing = "degenerate(" in tags
        self.sx = self.sz = 1.0

    def at(self, key, t):
        v = self.p[key]
        base = 1 if key in ("b", "d", "mu0") else 2
        return v[t] if v.ndim > base else v

    def kw(self, omit=()):
        return {SHORT[k]: np.array(v) for k, v in self.p.items() if k not in omit}

    def make(self, cls, omit=(), **extra):
        kw = self.kw(omit)
        kw.update(extra)
        return cls_of(cls)(**kw)

    def signature(self):
        return "n%d m%d T%s tv[%s] %s" % (
            self.n, self.m, self.T if self.T < 4 else "4+" if self.T < 30 else "30+",
            "".join(sorted(self.tv)), self.tags)

    def describe(self):
        return {"n": self.n, "m": self.m, "T": self.T, "time_varying": sorted(self.tv),
                "tags": self.tags, "params": {k: v for k, v in self.p.items()}}

    def copy(self, **over):
        p = {k: v.copy() for k, v in self.p.items()}
        p.update(over)
        M = Lin(self.n, self.m, self.T, p, set(self.tv), self.tags)
        M.sx, M.sz = self.sx, self.sz
        return M


def lin(rng, T=None, n=None, m=None, tv=None, tv_ok=("A", "b", "Q", "C", "d", "R"),
        scale=True, longer=True, exact_ok=False, tvp=0.5, cond=30.0, structure=0.3,
        degen=0.0):
    """Random model. tv_ok: parameters that may be time varying.

    structure: probability of special structure (`structured`): values that a
    special case or an optimisation in the code could single out."""
    if T is None:
        T = int(rng.choice([1, 2, 3, 4, 5, 6, 9, 14]))
    n = int(n or rng.choice([1, 2, 2, 3, 3, 4, 5, 6]))
    m = int(m or rng.choice([1, 1, 2, 2, 3, 4, 5]))
    if tv is None:
        tv = {k for k in tv_ok if rng.rand() < 0.45} if rng.rand() < tvp else set()
    sx, sz = scales(rng, 0.9, 12) if scale == "far" else scales(rng, 0.4) if scale else (1.0, 1.0)
    kinds = []

    def series(key, fn, length):
        if key in tv:
            L = length + (int(rng.randint(0, 3)) if longer else 0)
            L = max(L, 1)
            return np.array([fn() for _ in range(L)])
        return fn()

    bounded = T > 30
    exact_ok = exact_ok and not bounded
    ka = trans(rng, n, bounded)[1]

    def fA():
        for _ in range(50):
            M, k = trans(rng, n, bounded)
            if k == ka or "A" in tv:
                return M
        return M

    A = series("A", fA, T - 1)
    kinds.append(ka if "A" not in tv else "tvA")
    qs = rng.choice([1.0, 0.3, 0.05])
    rs = rng.choice([1.0, 0.3, 0.05, 3.0])
    Q = series("Q", lambda: spd(rng, n, cond, qs), T - 1)
    kc = []

    def fC():
        M, k = obsm(rng, m, n)
        kc.append(k)
        return M

    C = series("C", fC, T)
    kinds.append(kc[0] if "C" not in tv else "tvC")
    R = series("R", lambda: spd(rng, m, cond, rs), T)
    b = series("b", lambda: rng.randn(n), T - 1)
    d = series("d", lambda: rng.randn(m), T)
    mu0 = rng.randn(n) * rng.choice([0.0, 1.0, 5.0])
    P0 = spd(rng, n, cond, rng.choice([1.0, 0.2, 4.0]))
    if exact_ok and n > 1 and rng.rand() < 0.15:
        # one state coordinate is known exactly and constant (e.g. a bias "1" state)
        j = rng.randint(n)
        e = np.eye(n)[j]
        A = A.copy(); A[..., j, :] = e
        Q = Q.copy(); Q[..., j, :] = 0; Q[..., :, j] = 0
        b = b.copy(); b[..., j] = 0
        P0 = P0.copy(); P0[j] = 0; P0[:, j] = 0
        kinds.append("exact")
    if structure and rng.rand() < structure:
        A, b, Q, C, d, R, mu0, P0, tag = structured(
            rng, tv, "exact" in kinds, A, b, Q, C, d, R, mu0, P0)
        kinds.append(tag)
    if degen and not bounded and rng.rand() < degen:
        # noise-free parts: known initial state, deterministic dynamics, noise of low rank,
        # perfect measurements
        k = str(rng.choice(["P0=0", "Q=0", "Qrank1", "R=0", "Rpart", "P0rank1", "P0=0,Qrank1", "P0=0,Q=0"]))
        for part in k.split(","):
            key, how = (part.split("=") + [None])[:2] if "=" in part else (part[:1] if part[0] != "P" else "P0", part)
            X = dict(P0=P0, Q=Q, R=R)[key].copy()
            if how == "0":
                X[:] = 0
            elif how == "Rpart":
                j = rng.randint(m); X[..., j, :] = 0; X[..., :, j] = 0
            else:
                g = rng.randn(n); X[:] = np.outer(g, g)
            if key == "P0":
                P0 = X
            elif key == "Q":
                Q = X
            else:
                R = X
        kinds.append("degenerate(%s)" % k)
    p = dict(A=A, b=b * sx, Q=Q * sx**2, C=C * (sz / sx), d=d * sz, R=R * sz**2,
             mu0=mu0 * sx, P0=P0 * sx**2)
    if sx != 1 or sz != 1:
        kinds.append("scaled")
    M = Lin(n, m, T, p, set(tv), ",".join(kinds))
    M.sx, M.sz = sx, sz
    return M


def scales(rng, p, r=None):
    """Units of the state and of the observations, each other than 1 with probability p."""
    r = r or rng.choice([3, 3, 6, 12])
    return tuple(float(10.0 ** rng.uniform(-r, r)) if rng.rand() < p else 1.0 for _ in range(2))


def rescale(M, sx, sz):
    """The same model in other units, in place."""
    for k, u in dict(b=sx, Q=sx**2, C=sz / sx, d=sz, R=sz**2, mu0=sx, P0=sx**2).items():
        M.p[k] = M.p[k] * u
    M.sx, M.sz = M.sx * sx, M.sz * sz
    return M


def structured(rng, tv, exact, A, b, Q, C, d, R, mu0, P0):
    """Give some parameters the kind of structure that special cases key on."""
    n, m = A.shape[-1], C.shape[-2]
    tags = []

    def vec(v):
        k = rng.choice(["equal", "zero", "unit", "integer"])
        if k == "equal":
            v = np.ones_like(v) * np.round(rng.randn() * 3, 1)
        elif k == "zero":
            v = np.zeros_like(v)
        elif k == "unit":
            u = np.zeros_like(v); j = rng.randint(v.shape[-1]); u[..., j] = v[..., j]; v = u
        else:
            v = np.round(v * 2)
        return v, k

    def series(v, base, tkey):
        """time profile of a time-varying parameter"""
        if v.ndim == base or len(v) < 2:
            return v
        k = rng.choice(["switch", "switch", "lastonly", "firstonly", "equal", "period"])
        v = v.copy()
        i = int(rng.randint(1, len(v)))
        if k == "switch":
            v[:i] = v[0]; v[i:] = v[-1]
        elif k == "lastonly":
            v[:-1] = v[0]
        elif k == "firstonly":
            v[1:] = v[-1]
        elif k == "equal":
            v[:] = v[0]
        else:
            v[::2] = v[0]; v[1::2] = v[1]
        tags.append(tkey + ":" + k)
        return v

    def some(p_=0.5):
        return rng.rand() < p_

    if some() and not exact:
        b, k = vec(b); tags.append("b=" + k)
    if some():
        d, k = vec(d); tags.append("d=" + k)
    if some() and not exact:
        mu0, k = vec(mu0); tags.append("mu0=" + k)
    if some() and not exact:
        k = rng.choice(["zero", "scalar", "diag", "upper", "sym", "minus", "nilpotent"])
        a = A.copy()
        for M in (a if a.ndim == 3 else a[None]):
            s = min(1.0, np.abs(M).max() or 1.0)
            if k == "zero":
                M[:] = 0
            elif k == "scalar":
                M[:] = s * np.eye(n)
            elif k == "diag":
                M[:] = np.diag(np.clip(np.diag(M), -1, 1))
            elif k == "upper":
                M[:] = np.triu(M) / max(1.0, np.linalg.norm(M, 2))
            elif k == "sym":
                M[:] = 0.5 * (M + M.T) / max(1.0, np.linalg.norm(M, 2))
            elif k == "minus":
                M[:] = -np.eye(n)
            else:
                M[:] = np.triu(M, 1)
                M /= max(1.0, np.linalg.norm(M, 2))
        A = a
        tags.append("A=" + k)
    if some():
        k = rng.choice(["ones", "minus", "zero", "zerocol", "scalar", "samerows", "upper1", "lower1", "firstrow"])
        c = C.copy()
        for M in (c if c.ndim == 3 else c[None]):
            if k == "ones":
                M[:] = 1.0
            elif k == "minus":
                M[:] = -np.eye(m, n)
            elif k == "zero":
                M[:] = 0.0
            elif k == "zerocol":
                M[:, rng.randint(n)] = 0.0
            elif k == "scalar":
                M[:] = 2.0 * np.eye(m, n)
            elif k == "upper1":
                M[:] = np.triu(M, 1) + np.eye(m, n)
            elif k == "lower1":
                M[:] = np.tril(M, -1) + np.eye(m, n)
            elif k == "firstrow":
                M[0] = np.eye(1, n)[0]
            else:
                M[:] = M[0]
        C = c
        tags.append("C=" + k)

    def cov(v, p_=0.4):
        if not some(p_):
            return v
        k = rng.choice(["scalar", "diag", "equicorr", "block"])
        v = v.copy()
        for M in (v if v.ndim == 3 else v[None]):
            w = len(M)
            s = np.abs(M).max() or 1.0
            if k == "scalar":
                M[:] = s * np.eye(w)
            elif k == "diag":
                M[:] = np.diag(np.diag(M))
            elif k == "equicorr":
                M[:] = s * (0.5 * np.eye(w) + 0.5)
            elif w > 1:
                j = rng.randint(1, w)
                M[:j, j:] = 0; M[j:, :j] = 0
        return v

    if not exact:
        Q, P0 = cov(Q), cov(P0)
        if some(0.2) and Q.ndim == 2:
            P0 = Q.copy(); tags.append("P0=Q")
    R = cov(R)
    if some(0.15) and n == m and Q.ndim == 2 and R.ndim == 2 and not exact:
        R = Q.copy(); tags.append("R=Q")
    if some(0.7):
        A, b, Q = series(A, 2, "A"), series(b, 1, "b"), series(Q, 2, "Q")
        C, d, R = series(C, 2, "C"), series(d, 1, "d"), series(R, 2, "R")
    return A, b, Q, C, d, R, mu0, P0, "structured(" + " ".join(sorted(set(t.split(":")[0] for t in tags))[:2]) + ")"


def settled(rng, tv_ok):
    """A model that reaches its steady state and is disturbed only afterwards:
    late changes of time-varying parameters, late gaps, late outliers."""
    n, m = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    T = int(rng.choice([40, 60, 90]))
    M = lin(rng, T=T, n=n, m=m, tv=set(), structure=0.2)
    A = M.p["A"]
    r = np.abs(np.linalg.eigvals(A)).max()
    if r > 0.8:
        M.p["A"] = A * (rng.uniform(0.2, 0.8) / r)
    late = int(rng.randint(25, T))
    W = lin(rng, T=T, n=n, m=m, tv=set(), scale=False)
    unit = dict(A=1, b=M.sx, Q=M.sx**2, C=M.sz / M.sx, d=M.sz, R=M.sz**2)
    for k in tv_ok:
        if rng.rand() < 0.4:
            L = T + int(rng.randint(-1, 2)) if k in "AbQ" else T + int(rng.randint(0, 2))
            v = np.array([M.p[k]] * L)
            new = W.p[k] * unit[k]
            if k == "A":
                new = new * min(1.0, 0.95 / max(np.abs(np.linalg.eigvals(new)).max(), 1e-9))
            how = rng.choice(["from", "once", "scaled", "alternate"])
            i = min(late, L - 1)
            if how == "from":
                v[i:] = new
            elif how == "once":
                v[i] = new
            elif how == "scaled":
                v[i:] = v[i:] * (0.5 if k == "A" else rng.choice([0.2, 20.0]))
            else:
                v[i::2] = new
            M.p[k] = v
            M.tv.add(k)
    z = simulate(rng, M)[1]
    k = np.zeros((T, m), bool)
    kind = str(rng.choice(["none", "gap", "one", "late-start", "periodic"]))
    if kind == "gap":
        a = int(rng.randint(20, T)); k[a:a + rng.randint(1, 8)] = True
    elif kind == "one":
        k[rng.randint(20, T), rng.randint(m)] = True
    elif kind == "late-start":
        k[:rng.randint(1, 30)] = True
    elif kind == "periodic":
        k[::int(rng.randint(2, 5))] = True
    if rng.rand() < 0.3:
        z[late] *= 1e3
    z[k] = -5.0
    M.tags = "settled"
    return M, np.ma.array(z, mask=k), ~k.any(axis=1), kind


DATA = ("zeros", "repeat", "expected", "integer", "extreme", "zerorow")


def shaped(rng, M, z, kind=None):
    """Observation sequences with structure that special cases could key on."""
    kind = kind or str(rng.choice(DATA))
    z = z.copy()
    s = max(np.abs(z).max(), 1e-300)
    if kind == "zeros":
        z[:] = 0.0
    elif kind == "repeat":
        z[:] = z[0]
    elif kind == "expected":
        # exactly what the model expects: every innovation is (nearly) zero
        x = M.at("mu0", 0)
        for t in range(M.T):
            if t:
                x = M.at("A", t - 1).dot(x) + M.at("b", t - 1)
            z[t] = M.at("C", t).dot(x) + M.at("d", t)
    elif kind == "integer":
        z = np.round(z / s * 4) * s
    elif kind == "extreme":
        # outliers of thousands of standard deviations
        z[rng.randint(M.T)] *= 10.0 ** rng.randint(2, 5)
    else:
        z[rng.randint(M.T)] = 0.0
    return z, kind


def simulate(rng, M):
    """Independent simulation of the model (never uses the library)."""
    x = np.zeros((M.T, M.n)); z = np.zeros((M.T, M.m))

    def draw(cov):
        w, v = np.linalg.eigh(cov)
        return v.dot(np.sqrt(np.clip(w, 0, None)) * rng.randn(len(w)))

    for t in range(M.T):
        if t == 0:
            x[0] = M.at("mu0", 0) + draw(M.at("P0", 0))
        else:
            x[t] = M.at("A", t - 1).dot(x[t - 1]) + M.at("b", t - 1) + draw(M.at("Q", t - 1))
        z[t] = M.at("C", t).dot(x[t]) + M.at("d", t) + draw(M.at("R", t))
    return x, z


MASKS = ("none", "nomask", "allfalse", "rows", "partial", "first", "last", "block",
         "alternate", "all", "firstlast", "onecomp")


def mask(rng, T, m, kind=None):
    """Return (kind, None | boolean mask [T, m])."""
    kind = kind or str(rng.choice(MASKS))
    k = np.zeros((T, m), dtype=bool)
    if kind in ("none", "nomask", "allfalse"):
        return kind, (None if kind in ("none", "nomask") else k)
    if kind == "rows":
        k[rng.rand(T) < 0.35] = True
    elif kind == "partial":
        k = rng.rand(T, m) < 0.25
    elif kind == "first":
        k[0] = True
    elif kind == "last":
        k[-1] = True
    elif kind == "firstlast":
        k[0] = True; k[-1] = True
    elif kind == "block":
        a = rng.randint(T); k[a:a + rng.randint(1, T + 1)] = True
    elif kind == "alternate":
        k[rng.randint(2)::2] = True
    elif kind == "all":
        k[:] = True
    elif kind == "gaps":
        # outages of every length, up to half of the record
        for _ in range(int(rng.randint(1, 6))):
            a, b = rng.randint(T), int(np.exp(rng.uniform(0, np.log(max(2, T // 2)))))
            k[a:a + b] = True
        if rng.rand() < 0.7:
            k[-1] = False
    elif kind == "onecomp":
        k[rng.randint(T), rng.randint(m)] = True
    return kind, k


def observations(rng, M, z=None, kind=None, junk=True, shape=True):
    """(Z to hand to the library, observed[T] flags, mask kind)."""
    if z is None:
        z = simulate(rng, M)[1]
        if shape and rng.rand() < 0.15:
            z = shaped(rng, M, z)[0]
        elif rng.rand() < 0.2:
            z = z + 5 * np.abs(z).max() * (rng.rand(*z.shape) < 0.1)
    kind, k = mask(rng, M.T, M.m, kind)
    if kind == "none":
        return z.copy(), np.ones(M.T, bool), kind
    if kind == "nomask":
        return np.ma.array(z.copy()), np.ones(M.T, bool), kind
    z = z.copy()
    if junk:
        z[k] = rng.choice([0.0, 1e6, -7.7, 123.0])
    return np.ma.array(z, mask=k), ~k.any(axis=1), kind
