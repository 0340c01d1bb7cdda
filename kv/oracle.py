"""Reference models.  None of this shares code with the library.

`dense` conditions the joint Gaussian of all states and observations explicitly
(extended precision Cholesky), `exact` does the recursion in rational
arithmetic, `joseph` is an extended precision recursion for long horizons,
`ut_*` is an independent unscented transform.
"""

from fractions import Fraction

import numpy as np

LD = np.longdouble


def chol_ld(S):
    """Lower Cholesky factor in extended precision (raises on a non-PD matrix)."""
    S = np.array(S, dtype=LD)
    N = S.shape[0]
    L = np.zeros((N, N), dtype=LD)
    for j in range(N):
        v = S[j:, j] - L[j:, :j].dot(L[j, :j])
        if not v[0] > 0:
            raise np.linalg.LinAlgError("not positive definite at %d" % j)
        L[j:, j] = v / np.sqrt(v[0])
    return L


def fsub(L, B):
    """L^{-1} B, extended precision."""
    L = np.asarray(L, dtype=LD)
    X = np.array(B, dtype=LD)
    one = X.ndim == 1
    if one:
        X = X[:, None]
    for i in range(L.shape[0]):
        X[i] = (X[i] - L[i, :i].dot(X[:i])) / L[i, i]
    return X[:, 0] if one else X


class Dense:
    """Exact conditionals of a linear-Gaussian model, from its joint density."""

    def __init__(self, M, Z, observed):
        n, m, T = M.n, M.m, M.T
        self.M = M
        Z = np.ma.getdata(Z).astype(LD).reshape(T, m)
        mu = np.zeros((T, n), dtype=LD)
        P = np.zeros((T, n, T, n), dtype=LD)
        mu[0] = M.at("mu0", 0)
        P[0, :, 0, :] = M.at("P0", 0)
        for t in range(1, T):
            A = M.at("A", t - 1).astype(LD)
            mu[t] = A.dot(mu[t - 1]) + M.at("b", t - 1)
            # cov(x_t, x_s) = A cov(x_{t-1}, x_s) for s < t
            C = np.tensordot(A, P[t - 1, :, :t, :], axes=(1, 0))
            P[t, :, :t, :] = C
            P[:t, :, t, :] = np.transpose(C, (1, 2, 0))
            P[t, :, t, :] = A.dot(P[t - 1, :, t - 1, :]).dot(A.T) + M.at("Q", t - 1)
        obs_t = [t for t in range(T) if observed[t]]
        k = len(obs_t)
        self.obs_t = obs_t
        S = np.zeros((k, m, k, m), dtype=LD)
        G = np.zeros((k, m, T, n), dtype=LD)  # cov(z_i, x_t)
        r = np.zeros((k, m), dtype=LD)
        Cs = [M.at("C", t).astype(LD) for t in obs_t]
        for i, t in enumerate(obs_t):
            G[i] = np.tensordot(Cs[i], P[t], axes=(1, 0))
            r[i] = Z[t] - Cs[i].dot(mu[t]) - M.at("d", t)
        for i, t in enumerate(obs_t):
            for j, s in enumerate(obs_t):
                S[i, :, j, :] = G[i, :, s, :].dot(Cs[j].T)
            S[i, :, i, :] += M.at("R", t)
        N = k * m
        self.k, self.N = k, N
        if N:
            L = chol_ld(S.reshape(N, N))
            self.L = L
            self.v = fsub(L, r.reshape(N))
            self.W = fsub(L, G.reshape(N, T * n)).reshape(N, T, n)
        else:
            self.L = np.zeros((0, 0), LD); self.v = np.zeros(0, LD)
            self.W = np.zeros((0, T, n), LD)
        self.mu, self.P = mu, P
        self.prior_var = np.array([np.diag(P[t, :, t, :]) for t in range(T)], dtype=float)

    def _upto(self, t):
        """number of scalar observations with time <= t"""
        return sum(1 for s in self.obs_t if s <= t) * self.M.m

    def given(self, t, K):
        """mean, cov of x_t given the first K scalar observations"""
        W = self.W[:K, t]
        return self.mu[t] + W.T.dot(self.v[:K]), self.P[t, :, t, :] - W.T.dot(W)

    def _all(self, ks):
        ms, cs = zip(*[self.given(t, K) for t, K in enumerate(ks)])
        return np.array(ms, dtype=float), np.array(cs, dtype=float)

    def filtered(self):
        return self._all([self._upto(t) for t in range(self.M.T)])

    def predicted(self):
        return self._all([self._upto(t - 1) for t in range(self.M.T)])

    def smoothed(self):
        return self._all([self.N] * self.M.T)

    def pair(self, t):
        """Cov(x_t, x_{t-1} | all)"""
        return np.array(self.P[t, :, t - 1, :] - self.W[:, t].T.dot(self.W[:, t - 1]), dtype=float)

    def loglik(self):
        if not self.N:
            return 0.0
        return float(-0.5 * (self.v.dot(self.v) + self.N * np.log(2 * LD(np.pi)))
                     - np.sum(np.log(np.diag(self.L))))

    def loglik_parts(self):
        """log p(z_t | earlier observed z) per time step"""
        m = self.M.m
        out = np.zeros(self.M.T)
        for i, t in enumerate(self.obs_t):
            s = slice(i * m, (i + 1) * m)
            v = self.v[s]
            out[t] = float(-0.5 * (v.dot(v) + m * np.log(2 * LD(np.pi)))
                           - np.sum(np.log(np.diag(self.L)[s])))
        return out


def scales(D):
    """Natural scales for comparisons: per-time predicted sd / cov magnitudes."""
    pm, pc = D.predicted()
    cs = np.array([np.abs(c).max() for c in pc])
    fm, _ = D.filtered()
    return pm, pc, cs, fm


def joseph(M, Z, observed, smooth=True):
    """Extended precision forward recursion (Joseph form) + RTS. For long horizons."""
    n, T = M.n, M.T
    Z = np.ma.getdata(Z).astype(LD).reshape(T, M.m)
    pm = np.zeros((T, n), LD); pc = np.zeros((T, n, n), LD)
    fm = np.zeros((T, n), LD); fc = np.zeros((T, n, n), LD)
    ll = 0.0
    I = np.eye(n, dtype=LD)
    for t in range(T):
        if t == 0:
            pm[0], pc[0] = M.at("mu0", 0), M.at("P0", 0)
        else:
            A = M.at("A", t - 1).astype(LD)
            pm[t] = A.dot(fm[t - 1]) + M.at("b", t - 1)
            pc[t] = A.dot(fc[t - 1]).dot(A.T) + M.at("Q", t - 1)
        if observed[t]:
            C = M.at("C", t).astype(LD)
            R = M.at("R", t).astype(LD)
            S = C.dot(pc[t]).dot(C.T) + R
            L = chol_ld(S)
            W = fsub(L, C.dot(pc[t]))
            v = fsub(L, Z[t] - C.dot(pm[t]) - M.at("d", t))
            K = solve_spd(L, C.dot(pc[t])).T
            fm[t] = pm[t] + W.T.dot(v)
            J = I - K.dot(C)
            fc[t] = J.dot(pc[t]).dot(J.T) + K.dot(R).dot(K.T)
            ll += float(-0.5 * (v.dot(v) + M.m * np.log(2 * LD(np.pi)))
                        - np.sum(np.log(np.diag(L))))
        else:
            fm[t], fc[t] = pm[t], pc[t]
    sm = fm.copy(); sc = fc.copy()
    for t in reversed(range(T - 1 if smooth else 0)):
        A = M.at("A", t).astype(LD)
        L = chol_ld(pc[t + 1])
        G = solve_spd(L, A.dot(fc[t])).T
        sm[t] = fm[t] + G.dot(sm[t + 1] - pm[t + 1])
        sc[t] = fc[t] + G.dot(sc[t + 1] - pc[t + 1]).dot(G.T)
    f = lambda a: np.array(a, dtype=float)
    return dict(pm=f(pm), pc=f(pc), fm=f(fm), fc=f(fc), sm=f(sm), sc=f(sc), ll=ll)


def solve_spd(L, B):
    """(L L')^{-1} B."""
    Y = fsub(L, B)
    U = L.T
    X = np.array(Y, dtype=LD)
    one = X.ndim == 1
    if one:
        X = X[:, None]
    for i in reversed(range(L.shape[0])):
        X[i] = (X[i] - U[i, i + 1:].dot(X[i + 1:])) / U[i, i]
    return X[:, 0] if one else X


# ---------------------------------------------------------------- rationals
def fr(a):
    a = np.asarray(a, dtype=float)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = Fraction(float(a[i]))
    return out


def fr_solve(S, B):
    """S^{-1} B over the rationals (Gauss-Jordan)."""
    n = S.shape[0]
    M = np.concatenate([S.copy(), B.copy()], axis=1)
    for i in range(n):
        p = next(j for j in range(i, n) if M[j, i] != 0)
        if p != i:
            M[[i, p]] = M[[p, i]]
        M[i] = M[i] / M[i, i]
        for j in range(n):
            if j != i and M[j, i] != 0:
                M[j] = M[j] - M[j, i] * M[i]
    return M[:, n:]


def exact(M, Z, observed):
    """Kalman recursion over the rationals: no rounding at all."""
    T = M.T
    Z = np.ma.getdata(Z).reshape(T, M.m)
    fm, fc, pm, pc = [], [], [], []
    gain, resid = [], []
    for t in range(T):
        if t == 0:
            m, P = fr(M.at("mu0", 0)), fr(M.at("P0", 0))
        else:
            A = fr(M.at("A", t - 1))
            m = A.dot(fm[-1]) + fr(M.at("b", t - 1))
            P = A.dot(fc[-1]).dot(A.T) + fr(M.at("Q", t - 1))
        pm.append(m); pc.append(P)
        if observed[t]:
            C = fr(M.at("C", t))
            S = C.dot(P).dot(C.T) + fr(M.at("R", t))
            CP = C.dot(P)
            r = (fr(Z[t]) - C.dot(m) - fr(M.at("d", t)))[:, None]
            sol = fr_solve(S, np.concatenate([CP, r], axis=1))
            m = m + CP.T.dot(sol[:, -1])
            P = P - CP.T.dot(sol[:, :-1])
            # gain K = P C' S^-1 and I - K C, rounded only at the end
            K = fr_solve(S, CP).T
            gain.append(np.array(K, dtype=float))
            resid.append(np.array(fr(np.eye(M.n)) - K.dot(C), dtype=float))
        else:
            gain.append(np.zeros((M.n, M.m))); resid.append(np.eye(M.n))
        fm.append(m); fc.append(P)
    f = lambda a: np.array([[float(v) for v in np.ravel(x)] for x in a])
    n = M.n
    return dict(fm=f(fm), fc=f(fc).reshape(T, n, n), pm=f(pm), pc=f(pc).reshape(T, n, n),
                K=gain, J=resid)


# ------------------------------------------------------- unscented transform
def sigma(mu, P):
    """Sigma points for alpha=1, beta=0, kappa=3-n: lower Cholesky columns."""
    n = len(mu)
    L = np.linalg.cholesky(P)
    c = 3.0
    pts = [mu] + [mu + np.sqrt(c) * L[:, i] for i in range(n)] \
        + [mu - np.sqrt(c) * L[:, i] for i in range(n)]
    w = np.array([(c - n) / c] + [0.5 / c] * (2 * n))
    return np.array(pts), w


class Indefinite(np.linalg.LinAlgError):
    """The transform (negative centre weight) has no usable covariance here."""


def valid(S, D, w):
    """S must be positive definite with a margin over what was subtracted from it."""
    neg = sum((abs(wi) * np.outer(d, d) for wi, d in zip(w, D) if wi < 0),
              np.zeros_like(S))
    ev = np.linalg.eigvalsh(0.5 * (S + S.T))
    if not (np.isfinite(ev).all() and ev[0] > 1e-4 * max(ev[-1], np.abs(neg).max())):
        raise Indefinite()
    return S


def wmom(X, w):
    mu = sum(wi * x for wi, x in zip(w, X))
    D = X - mu
    return mu, sum(wi * np.outer(d, d) for wi, d in zip(w, D)), D


def wcross(DX, DY, w):
    return sum(wi * np.outer(a, b) for wi, a, b in zip(w, DX, DY))


def ukf_correct(mx, Px, mz, Pz, Pxz, z):
    K = np.linalg.solve(Pz, Pxz.T).T
    return mx + K.dot(z - mz), Px - K.dot(Pz).dot(K.T)


def ut_additive(f, g, Q, R, mu0, P0, Z, observed):
    """Additive-noise UKF filter + smoother. f(t)(x), g(t)(x)."""
    T = len(Z); n = len(mu0)
    fm = np.zeros((T, n)); fc = np.zeros((T, n, n))
    for t in range(T):
        if t == 0:
            m, P = mu0, P0
        else:
            X, w = sigma(fm[t - 1], fc[t - 1])
            m, P, DX = wmom(np.array([f(t - 1)(x) for x in X]), w)
            P = valid(P + Q, DX, w)
        fm[t], fc[t] = m, P
        if observed[t]:
            X, w = sigma(m, P)
            Y = np.array([np.atleast_1d(g(t)(x)) for x in X])
            mz, Pz, DY = wmom(Y, w)
            fm[t], fc[t] = ukf_correct(m, P, mz, valid(Pz + R, DY, w), wcross(X - m, DY, w), Z[t])
    sm, sc = fm.copy(), fc.copy()
    for t in reversed(range(T - 1)):
        X, w = sigma(fm[t], fc[t])
        m, P, DY = wmom(np.array([f(t)(x) for x in X]), w)
        P = valid(P + Q, DY, w)
        G = np.linalg.solve(P, wcross(X - fm[t], DY, w).T).T
        sm[t] = fm[t] + G.dot(sm[t + 1] - m)
        sc[t] = fc[t] + G.dot(sc[t + 1] - P).dot(G.T)
    return fm, fc, sm, sc


def _bd(*ms):
    n = sum(len(m) for m in ms)
    out = np.zeros((n, n)); i = 0
    for m in ms:
        out[i:i + len(m), i:i + len(m)] = m; i += len(m)
    return out


def ut_augmented_step(f, g, Q, R, m, P, z, observed, predict=True):
    n, q, r = len(m), len(Q), len(R)
    X, w = sigma(np.concatenate([m, np.zeros(q + r)]), _bd(P, Q, R))
    if predict:
        Xp = np.array([f(x[:n], x[n:n + q]) for x in X])
    else:
        Xp = X[:, :n]
    mp, Pp, DX = wmom(Xp, w)
    if not observed:
        return mp, Pp
    Y = np.array([np.atleast_1d(g(xp, x[n + q:])) for xp, x in zip(Xp, X)])
    mz, Pz, DY = wmom(Y, w)
    valid(Pp, DX, w)
    valid(Pz, DY, w)
    return ukf_correct(mp, Pp, mz, Pz, wcross(DX, DY, w), z)


def ut_augmented(f, g, Q, R, mu0, P0, Z, observed):
    """General (augmented) UKF filter + smoother. f(t)(x, w), g(t)(x, v)."""
    T = len(Z); n = len(mu0)
    fm = np.zeros((T, n)); fc = np.zeros((T, n, n))
    for t in range(T):
        m, P = (mu0, P0) if t == 0 else (fm[t - 1], fc[t - 1])
        fm[t], fc[t] = ut_augmented_step(
            f(t - 1) if t else None, g(t), Q, R, m, P, Z[t], observed[t], predict=t > 0)
    sm, sc = fm.copy(), fc.copy()
    for t in reversed(range(T - 1)):
        X, w = sigma(np.concatenate([fm[t], np.zeros(len(Q))]), _bd(fc[t], Q))
        m, P, DY = wmom(np.array([f(t)(x[:n], x[n:]) for x in X]), w)
        valid(P, DY, w)
        G = np.linalg.solve(P, wcross(X[:, :n] - fm[t], DY, w).T).T
        sm[t] = fm[t] + G.dot(sm[t + 1] - m)
        sc[t] = fc[t] + G.dot(sc[t + 1] - P).dot(G.T)
    return fm, fc, sm, sc
