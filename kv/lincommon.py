"""Shared pieces of the linear-filter properties."""

import numpy as np

from . import models, oracle

TV = {"KalmanFilter": ("A", "b", "Q", "C", "d", "R"),
      "CholeskyKalmanFilter": ("A", "b", "C", "d"),
      "BiermanKalmanFilter": ("A", "b", "C", "d")}


def pick_class(rng):
    return str(rng.choice(["KalmanFilter", "KalmanFilter", "CholeskyKalmanFilter",
                           "BiermanKalmanFilter"]))


def make_case(rng, cls=None, degen=0.0, **opt):
    cls = cls or pick_class(rng)
    if opt.pop("settled", False):
        return (cls,) + models.settled(rng, TV[cls])
    weak = opt.pop("faint", False)
    opt.setdefault("exact_ok", cls == "KalmanFilter")
    if opt["exact_ok"]:
        opt.setdefault("degen", degen)
    opt.setdefault("tv_ok", TV[cls])
    mask = opt.pop("mask", None)
    M = models.lin(rng, **opt)
    Z, observed, mk = models.observations(rng, M, kind=None if mask == "any" else mask)
    if weak:
        R = M.p["R"]
        M.p["C"], Z = faint(rng, M.p["C"], R[:M.T] if R.ndim == 3 else R, Z)
    return cls, M, Z, observed, mk


def faint(rng, C, R, Z):
    """Sensors that tell next to nothing and readings large enough to matter all the same: no covariance
    moves visibly, the means do. Returns C and Z."""
    e = 10.0 ** -rng.uniform(4, 9)
    sd = np.sqrt(np.diagonal(R, axis1=-2, axis2=-1))
    g = np.zeros(Z.shape) + rng.randn(*Z.shape) * sd / e
    return [c * e for c in C] if isinstance(C, list) else C * e, np.ma.array(g, mask=np.ma.getmaskarray(Z))


def omit_some(rng, M):
    """Replace some parameters by their documented defaults and omit them."""
    omit = set()
    n, m = M.n, M.m
    if max(abs(np.log10(M.sx)), abs(np.log10(M.sz))) > 3:
        # defaults are in units of one: with the rest in such units the problem would be ill conditioned
        return omit, {}
    dflt = dict(A=np.eye(n), b=np.zeros(n), Q=np.eye(n), C=np.eye(m, n), d=np.zeros(m),
                R=np.eye(m), mu0=np.zeros(n), P0=np.eye(n))
    for k in dflt:
        if rng.rand() < 0.4:
            omit.add(k)
            M.p[k] = dflt[k]
            M.tv.discard(k)
    extra = {}
    if {"A", "b", "Q", "C", "mu0", "P0"} <= omit or rng.rand() < 0.3:
        extra["n_dim_state"] = n
    if {"C", "d", "R"} <= omit or rng.rand() < 0.3:
        extra["n_dim_obs"] = m
    return omit, extra


def mean_scale(*ms):
    """Per-time scale for means: running maximum of the magnitudes involved."""
    s = np.zeros(len(ms[0]))
    for a in ms:
        a = np.asarray(a, dtype=float)
        s = np.maximum(s, np.abs(a).reshape(len(a), -1).max(axis=1))
    return np.maximum.accumulate(s)


class Ref:
    """Reference results and natural scales for one (model, observations)."""

    def __init__(self, M, Z, observed, smooth=True, recursive=False):
        self.M = M
        if M.T * max(M.n, M.m) <= 130 and not recursive:
            D = self.D = oracle.Dense(M, Z, observed)
            self.pm, self.pc = D.predicted()
            self.fm, self.fc = D.filtered()
            if smooth:
                self.sm, self.sc = D.smoothed()
            self.ll = D.loglik()
        else:
            r = oracle.joseph(M, Z, observed, smooth)
            self.D = None
            self.pm, self.pc, self.fm, self.fc = r["pm"], r["pc"], r["fm"], r["fc"]
            self.sm, self.sc, self.ll = r["sm"], r["sc"], r["ll"]
        sd = np.sqrt(np.array([np.abs(np.diag(c)).max() for c in self.pc]))
        self.ms = mean_scale(self.pm, self.fm, sd)
        self.cs = np.maximum.accumulate(np.array([np.abs(c).max() for c in self.pc]))
        if smooth:
            # smoothing propagates backwards: later magnitudes matter too
            self.sms = max(self.ms.max(), np.abs(self.sm).max())
            self.scs = self.cs.max()
        self.Sc = self._cond(observed)

    def _cond(self, observed):
        """worst condition number of innovation / predicted covariances"""
        c1 = c2 = 1.0
        self.rank = False
        big = 0.0
        for t in range(self.M.T):
            C = self.M.at("C", t)
            S = C.dot(self.pc[t]).dot(C.T) + self.M.at("R", t)
            c1 = max(c1, np.linalg.cond(S))
            if observed[t]:
                # signal-to-noise ratio: digits lost by P - K C P
                r = np.linalg.eigvalsh(self.M.at("R", t))[0]
                if r > 1e-12 * np.abs(S).max():
                    c1 = max(c1, 1e-2 * np.abs(S).max() / r)
                else:
                    # perfect measurements: rounding of the state covariance enters S
                    big = max(big, np.abs(C).max() ** 2 * self.cs[t])
                    w = np.linalg.eigvalsh(S)[0]
                    c1 = max(c1, big / w if w > 0 else np.inf)
            if t:
                d = np.diag(self.pc[t]) > 0
                P = self.pc[t][np.ix_(d, d)]
                if len(P):
                    w = np.linalg.eigvalsh(P)
                    if w[0] <= 1e-13 * w[-1]:
                        self.rank = True  # singular, and not along an axis: its rank is decided by rounding
                    if self.M.sing:
                        w = w[w > 1e-15 * w[-1]]  # exactly singular: clear gap required
                    c2 = max(c2, w[-1] / w[0] if w[0] > 0 else np.inf)
        self.cond_P = c2
        return c1


COND_MAX = 2e4


def check_filter(ctx, cls, M, ref, got, mech="filter", tol=1e-9, **detail):
    ctx.check(isinstance(got, tuple) and len(got) == 2, mech + "/shape",
              "filter must return (means, covariances)")
    m = ctx.shape(got[0], (M.T, M.n), mech, cls + ".filter means")
    c = ctx.shape(got[1], (M.T, M.n, M.n), mech, cls + ".filter covariances")
    ctx.close(c, ref.fc, ref.cs[:, None, None], mech + "/cov",
              cls + " filtered covariance", tol, model=M.describe(), **detail)
    ctx.close(m, ref.fm, ref.ms[:, None], mech + "/mean",
              cls + " filtered mean", tol, model=M.describe(), **detail)


def check_smooth(ctx, cls, M, ref, got, mech="smooth", tol=1e-9, **detail):
    ctx.check(isinstance(got, tuple) and len(got) == 2, mech + "/shape",
              "smooth must return (means, covariances)")
    m = ctx.shape(got[0], (M.T, M.n), mech, cls + ".smooth means")
    c = ctx.shape(got[1], (M.T, M.n, M.n), mech, cls + ".smooth covariances")
    ctx.close(c, ref.sc, ref.scs, mech + "/cov",
              cls + " smoothed covariance", tol, model=M.describe(), **detail)
    ctx.close(m, ref.sm, ref.sms, mech + "/mean",
              cls + " smoothed mean", tol, model=M.describe(), **detail)


class Mixed:
    """A well-conditioned model with each component in its own unit, ratios up to 1e5: the answer is that
    of the model before the change of units. The recursions invert covariances whose condition number is
    the square of the ratio, so the tolerance grows with it."""

    def __init__(self, rng, smooth):
        self.cls, M, Z, self.obs, self.mk = make_case(rng, scale=False, exact_ok=False,
                                                      T=int(rng.choice([1, 2, 3, 5, 8])))
        self.ref = r = Ref(M, Z, self.obs, smooth=smooth)
        self.ok = max(r.Sc, r.cond_P) <= 1e3
        a, b = rng.choice([0.0, 1.0, 2.0, 2.5], 2)
        self.dx, self.dz = dx, dz = 10.0 ** rng.uniform(-a, a, M.n), 10.0 ** rng.uniform(-b, b, M.m)
        o, p = np.outer, M.p
        self.M = W = M.copy(A=p["A"] * o(dx, 1 / dx), b=p["b"] * dx, Q=p["Q"] * o(dx, dx), C=p["C"] * o(dz, 1 / dx),
                            d=p["d"] * dz, R=p["R"] * o(dz, dz), mu0=p["mu0"] * dx, P0=p["P0"] * o(dx, dx))
        W.T = M.T
        self.Z = np.ma.array(np.ma.getdata(Z) * dz, mask=np.ma.getmaskarray(Z))
        self.tol = 1e-9 + 500 * 2.3e-16 * max(dx.max() / dx.min(), dz.max() / dz.min()) ** 2
        self.tag = "mixed %g %g" % (a, b)

    def run(self, ctx, op):
        kf = ctx.call("construct", self.cls, self.M.make, self.cls)
        ctx.saw("mixed:" + self.cls)
        ctx.sig(self.cls, self.M.signature(), self.mk, self.tag)
        return ctx.call(op, "%s.%s" % (self.cls, op), getattr(kf, op), self.Z)

    def back(self, got):
        return np.ma.getdata(got[0]) / self.dx, np.asarray(got[1]) / np.outer(self.dx, self.dx)
