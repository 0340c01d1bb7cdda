"""P10: square-root filters stay accurate on ill-conditioned problems."""

import numpy as np

from .. import models, oracle

RULE = ("random model whose prior, transition and observation noise differ by a factor 10^k, k up to 14, "
        "filtered by both square-root filters and compared with the recursion in exact rational "
        "arithmetic; distinct by class, k, flavour, dimensions and mask; the standard filter runs "
        "alongside only to measure how hard the cases are")
EPS = 2.3e-16
# what a backward stable factor recursion may lose, in units of the bound of `factor_error`;
# observed on the repaired tree: 1.6 at most in 10^4 cases
SLACK = 25.0


def gen(rng):
    cls = str(rng.choice(["CholeskyKalmanFilter", "BiermanKalmanFilter"]))
    k = int(rng.choice([2, 4, 6, 8, 10, 11, 12, 12, 12]))
    flavour = str(rng.choice(["vague", "precise", "precise", "spread", "nearcopy", "quiet", "quiet",
                              "tracking", "aligned"]))
    n, m, T = int(rng.randint(1, 5)), int(rng.randint(1, 4)), int(rng.randint(1, 7))
    if flavour in ("tracking", "aligned"):
        T = int(rng.randint(2, 7))
    M = models.lin(rng, n=n, m=m, T=T, tv_ok=("A", "b", "C", "d"), scale=False)
    s = 10.0 ** (k / 2.0)
    p = M.p
    if flavour == "vague":
        p["P0"] = p["P0"] * s; p["R"] = p["R"] / s
    elif flavour == "precise":
        p["R"] = p["R"] / s**2
    elif flavour == "quiet":
        p["P0"] = p["P0"] * s; p["R"] = p["R"] / s; p["Q"] = p["Q"] / s
    elif flavour == "tracking":
        # an integrator with tiny noises and a vague start: what the states have in common is lost last
        A = np.eye(n) + np.triu(rng.uniform(0.5, 1.5, (n, n)), 1)
        p["A"] = np.array([A] * len(p["A"])) if p["A"].ndim == 3 else A
        g = 10.0 ** -rng.choice([2, 4, 6, 8, 10, 11])
        p["Q"] = p["Q"] * g * 10.0 ** rng.uniform(-1, 1)
        p["R"] = p["R"] * g * 10.0 ** rng.uniform(-1, 1)
        k = int(-np.log10(g))
    elif flavour == "aligned":
        # all prior uncertainty along nearly one direction
        u = rng.randn(n)
        p["P0"] = np.outer(u, u) * s + p["P0"] / s
        p["Q"] = p["Q"] / s; p["R"] = p["R"] / s
    elif flavour == "spread":
        g = np.exp(np.log(s) * rng.uniform(-1, 1, m))
        p["R"] = p["R"] * np.sqrt(np.outer(g, g))
        g = np.exp(np.log(s) * rng.uniform(-1, 1, n))
        p["P0"] = p["P0"] * np.sqrt(np.outer(g, g))
    else:
        # several sensors that measure almost the same thing almost perfectly
        C = p["C"].copy()
        C[..., 1:, :] = C[..., :1, :] + C[..., 1:, :] / s
        p["C"] = C; p["R"] = p["R"] / s
    for q in ("P0", "R", "Q"):
        p[q] = 0.5 * (p[q] + np.swapaxes(p[q], -1, -2))
    models.rescale(M, *models.scales(rng, 0.3))
    # data consistent with the model: an outlier of 1e8 sigma has no accurate answer in any precision
    Z, obs, mk = models.observations(rng, M, models.simulate(rng, M)[1], junk=False)
    return cls, k, flavour, M, Z, obs, mk


def _norm(X):
    return np.linalg.norm(X, 2)


def _factoring(P):
    """Error of the computed factor of a covariance handed to the filter as a dense matrix."""
    d = np.sqrt(np.diag(P))
    w = np.linalg.eigvalsh(P / np.outer(d, d))
    return EPS * np.sqrt(_norm(P) * w[-1] / max(w[0], 1e-300))


def factor_error(M, obs, e):
    """First order bound on the error of a factor of the filtered covariance that a filter makes which
    transforms factors orthogonally: rounding relative to each factor it works with, propagated by the
    exact transition and by the exact closed-loop matrix I - KC."""
    out, ef = [], None
    for t in range(M.T):
        P = e["pc"][t]
        if t == 0:
            ep = _factoring(P)
        else:
            A, Q = M.at("A", t - 1), M.at("Q", t - 1)
            ep = _norm(A) * ef + EPS * _norm(A) * np.sqrt(_norm(e["fc"][t - 1])) + _factoring(Q)
        if obs[t]:
            C, R = M.at("C", t), M.at("R", t)
            S = np.diag(C.dot(P).dot(C.T) + R)
            w = np.linalg.eigvalsh(R)
            ef = (_norm(e["J"][t]) * ep + EPS * (np.sqrt(_norm(P)) + _norm(e["K"][t] * np.sqrt(S))))
            # correlated noise has to be decorrelated first
            ef += EPS * np.sqrt(w[-1] / max(w[0], 1e-300)) * np.sqrt(_norm(e["fc"][t]))
        else:
            ef = ep
        out.append(ef)
    return np.array(out)


def ill(ctx, rng):
    cls, k, flavour, M, Z, obs, mk = gen(rng)
    T, n, m, s = M.T, M.n, M.m, 10.0 ** (k / 2.0)
    e = oracle.exact(M, Z, obs)
    # problem condition: spread between the largest prior and smallest posterior variance
    for c in e["pc"]:
        w = np.linalg.eigvalsh(c)
        if w[0] < 1e-13 * w[-1]:
            ctx.saw("skipped:unrepresentable")
            return
    kf = ctx.call("construct", cls, M.make, cls)
    fm, fc = ctx.call("filter", cls + ".filter", kf.filter, Z)
    ctx.check(fm.shape == (T, n) and fc.shape == (T, n, n), "shape", "shapes")
    det = dict(model=M.describe(), Z=Z, k=k, flavour=flavour)
    cs = np.abs(e["fc"]).max(axis=(1, 2))
    big = np.maximum.accumulate(np.array([np.abs(c).max() for c in e["pc"]]))
    for t in range(T):
        w = np.linalg.eigvalsh(0.5 * (fc[t] + fc[t].T)) if np.isfinite(fc[t]).all() else [np.nan]
        ctx.check(w[0] >= -1e-13 * np.abs(fc[t]).max(), "psd",
                  "%s.filter covariance at %d is not positive semi-definite (eigenvalue %.3g of %.3g)"
                  % (cls, t, w[0], w[-1]), **det)
        ctx.close(fc[t], fc[t].T, np.abs(fc[t]).max(), "symmetric", cls + " covariance symmetric", 1e-12)
    ef = factor_error(M, obs, e)
    nf = np.array([_norm(c) for c in e["fc"]])
    allow = SLACK * (2 * np.sqrt(nf) * ef + ef**2 + EPS * nf)
    ctx.close(fc, e["fc"], allow[:, None, None], "cov/" + cls,
              "%s filtered covariance vs exact arithmetic (noise ratio 1e%d)" % (cls, k), 1.0, **det)
    tol = 6e-9 * s
    ms = np.abs(e["fm"]).max(axis=1) + np.sqrt(cs)
    ms = np.maximum(ms, 1e-3 * np.maximum.accumulate(ms))
    ms = np.maximum.accumulate(np.maximum(ms, np.abs(e["pm"]).max(axis=1)))
    ms = np.maximum(ms, 1e-3 * np.sqrt(big))
    ctx.close(fm, e["fm"], ms[:, None], "mean/" + cls,
              "%s filtered mean vs exact arithmetic (noise ratio 1e%d)" % (cls, k), tol, **det)
    ctx.saw("ill:" + cls)
    ctx.saw("flavour:" + flavour)
    std = M.make("KalmanFilter").filter(Z)[1]
    bad = not (np.abs(std - e["fc"]) <= allow[:, None, None]).all()
    ctx.saw("standard_filter_fails" if bad else "standard_filter_survives")
    if bad:
        ctx.saw("beyond_standard:" + cls)
        ctx.sig(cls, k, flavour, n, m, T, mk)
        ctx.sample({"class": cls, "k": k, "flavour": flavour, "n": n, "m": m, "T": T})


KINDS = {"ill": ill}
PLAN = {"quick": {"ill": 8000}, "thorough": {"ill": 150000}}
REQUIRED = ["ill:CholeskyKalmanFilter", "ill:BiermanKalmanFilter",
            "beyond_standard:CholeskyKalmanFilter", "beyond_standard:BiermanKalmanFilter",
            "flavour:tracking", "flavour:aligned", "flavour:quiet", "flavour:precise"]
ASSUMPTIONS = ["only filtering: smoothing, likelihood and one-step updates work on dense covariances in "
               "every class, so no square-root accuracy is documented for them",
               "covariances: 25 times the first-order error bound of a factor recursion, computed per case",
               "means: 6e-9 * sqrt(noise ratio) relative to the means and standard deviations met so far"]
