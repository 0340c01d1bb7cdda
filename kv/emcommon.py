"""Shared pieces of the EM properties: exact moments and the documented M-step."""

import numpy as np

from . import lincommon as lc, models

ATTR = models.SHORT
EMV = list(models.PARAMS)
KEY = {v: k for k, v in ATTR.items()}
DEFAULT = ["transition_covariance", "observation_covariance", "initial_state_mean",
           "initial_state_covariance"]


def params_of(kf, base):
    """A Lin with the parameters currently stored in a filter."""
    p = {k: np.array(getattr(kf, a), dtype=float) for k, a in ATTR.items()}
    M = base.copy(**p)
    M.T = base.T
    M.tv = {k for k in p if p[k].ndim > (1 if k in ("b", "d", "mu0") else 2)}
    return M


def moments(M, Z, observed, recursive=False):
    """Exact smoothed means, covariances, and Cov(x_t, x_{t-1} | all)."""
    r = lc.Ref(M, Z, observed, recursive=recursive)
    if r.D is not None:
        pair = np.array([np.zeros((M.n, M.n))] + [r.D.pair(t) for t in range(1, M.T)])
    else:
        # Cov(x_t, x_{t-1} | all) = V_t J_{t-1}'
        pair = np.zeros((M.T, M.n, M.n))
        for t in range(1, M.T):
            A = M.at("A", t - 1)
            J = np.linalg.solve(r.pc[t], A.dot(r.fc[t - 1])).T
            pair[t] = r.sc[t].dot(J.T)
    return r, r.sm, r.sc, pair


def mstep(M, Z, observed, ev, mom):
    """Documented closed forms, as one least-squares problem per parameter."""
    _, x, V, P = mom
    T, n, m = M.T, M.n, M.m
    z = np.ma.getdata(Z).reshape(T, m).astype(float)
    obs = [t for t in range(T) if observed[t]]
    new = {k: v.copy() for k, v in M.p.items()}

    def at(key, t):
        v = new[key]
        return v[t] if v.ndim > (1 if key in ("b", "d") else 2) else v

    Exx = V + x[:, :, None] * x[:, None, :]
    if "C" in ev:
        num = sum((np.outer(z[t] - at("d", t), x[t]) for t in obs), np.zeros((m, n)))
        den = sum((Exx[t] for t in obs), np.zeros((n, n)))
        new["C"] = np.linalg.lstsq(den, num.T, rcond=None)[0].T
    if "R" in ev:
        acc = np.zeros((m, m))
        for t in obs:
            C = at("C", t)
            e = z[t] - at("d", t) - C.dot(x[t])
            acc += np.outer(e, e) + C.dot(V[t]).dot(C.T)
        new["R"] = acc / max(len(obs), 1)
    if "A" in ev:
        num = sum((P[t] + np.outer(x[t] - at("b", t - 1), x[t - 1]) for t in range(1, T)),
                  np.zeros((n, n)))
        den = sum((Exx[t] for t in range(T - 1)), np.zeros((n, n)))
        new["A"] = np.linalg.lstsq(den, num.T, rcond=None)[0].T
    if "Q" in ev:
        acc = np.zeros((n, n))
        for t in range(1, T):
            A = at("A", t - 1)
            e = x[t] - A.dot(x[t - 1]) - at("b", t - 1)
            X = A.dot(P[t].T)
            acc += np.outer(e, e) + V[t] + A.dot(V[t - 1]).dot(A.T) - X - X.T
        new["Q"] = acc / max(T - 1, 1)
    if "mu0" in ev:
        new["mu0"] = x[0].copy()
    if "P0" in ev:
        e = x[0] - new["mu0"]
        new["P0"] = V[0] + np.outer(e, e)
    if "b" in ev:
        new["b"] = sum((x[t] - at("A", t - 1).dot(x[t - 1]) for t in range(1, T)),
                       np.zeros(n)) / max(T - 1, 1)
    if "d" in ev:
        new["d"] = sum((z[t] - at("C", t).dot(x[t]) for t in obs), np.zeros(m)) / max(len(obs), 1)
    return new


def solvable(M, Z, obs, limit=1e4):
    """The least-squares problems of the M-step (for C and A) are well conditioned."""
    _, x, V, _ = moments(M, Z, obs)
    Exx = V + x[:, :, None] * x[:, None, :]
    return (M.T > 1 and obs.any() and np.linalg.cond(Exx[:-1].sum(axis=0)) < limit
            and np.linalg.cond(Exx[obs].sum(axis=0)) < limit)


def degenerate(P, limit=1e-6):
    """A noise covariance has become (nearly) singular: the next step amplifies rounding."""
    for k in ("Q", "R", "P0"):
        c = P.p[k] if P.p[k].ndim == 3 else P.p[k][None]
        for x in c:
            w = np.linalg.eigvalsh(x)
            if not w[0] > limit * max(w[-1], 1e-300):
                return True
    return False


def subset(rng):
    """(em_vars argument, set of short keys)"""
    k = rng.randint(6)
    if k == 0:
        return "all", set(ATTR)
    if k == 1:
        return None, {KEY[v] for v in DEFAULT}
    ev = [v for v in EMV if rng.rand() < 0.45]
    if k == 2:
        ev = [EMV[rng.randint(8)]]
    ks = {KEY[v] for v in ev}
    form = rng.randint(4)
    rng.shuffle(ev)
    if form == 1:
        return tuple(ev), ks
    if form == 2:
        return set(ev), ks
    if form == 3:
        return np.array(ev, dtype="U32") if rng.rand() < 0.5 else frozenset(ev), ks
    return ev, ks
