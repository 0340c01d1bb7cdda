"""Nonlinear models for the unscented filters, with recorded user functions."""

import threading

import numpy as np

from . import models, oracle

UNSC = ("UKF", "AUKF", "SqrtAUKF")


def _mixed(u):
    """odd in the first component, even in the others"""
    v = u * u / (1 + u * u)
    v[0] = np.sin(u[0])
    return v


PHI = {"sin": np.sin, "cos": np.cos, "odd": lambda u: u / (1 + u * u), "even": lambda u: u * u / (1 + u * u),
       "clip": lambda u: np.clip(u, -1, 1), "abs": lambda u: np.sqrt(1e-3 + u * u), "mixed": _mixed,
       "step": lambda u: np.tanh(4 * u), "zero": lambda u: 0.0 * u}


class NL:
    """x' = A x + b + e sin(B x) (+ noise), z = C x + d + e cos(D x) (+ noise)."""

    def __init__(self, rng, additive, T=None, n=None, m=None, affine=False, tv=None,
                 eps=None, tvlen=0, structure=0.4):
        self.additive = additive
        self.n = n = int(n or (rng.choice([1, 2, 2, 3, 3, 4, 5]) if rng.rand() < 0.93 else rng.randint(6, 13)))
        self.m = m = int(m or (rng.choice([1, 1, 2, 2, 3, 4]) if rng.rand() < 0.93 else rng.randint(5, 10)))
        self.T = T = int(T or rng.choice([1, 2, 3, 4, 6, 9]))
        self.tv = bool(rng.rand() < 0.4) if tv is None else tv
        self.tvf = self.tv and rng.rand() < 0.8
        self.tvg = self.tv and (rng.rand() < 0.8 or not self.tvf)
        Lf = max(1, T - 1 + tvlen) if self.tvf else 1
        Lg = max(1, T + tvlen) if self.tvg else 1
        aug = not additive
        e = eps if eps is not None else (0.0 if affine else float(rng.choice([0.05, 0.15, 0.3])))
        if aug and n > 3:
            e = min(e, 0.1)
        if n > 5:
            e = min(e, 0.05)
        self.e, self.affine = e, affine
        self.A = [models.trans(rng, n, True)[0] * rng.uniform(0.7, 1.0) for _ in range(Lf)]
        self.B = [rng.randn(n, n) / np.sqrt(n) for _ in range(Lf)]
        self.b = [rng.randn(n) for _ in range(Lf)]
        self.G = [np.eye(n) + 0.3 * rng.randn(n, n) for _ in range(Lf)]
        self.C = [models.obsm(rng, m, n)[0] for _ in range(Lg)]
        self.D = [rng.randn(m, n) / np.sqrt(n) for _ in range(Lg)]
        self.d = [rng.randn(m) for _ in range(Lg)]
        self.H = [np.eye(m) + 0.3 * rng.randn(m, m) for _ in range(Lg)]
        self.Q = models.spd(rng, n, 10, float(rng.choice([0.1, 0.5, 1.0])))
        self.R = models.spd(rng, m, 10, float(rng.choice([0.1, 0.5, 1.0])))
        self.mu0 = rng.randn(n)
        self.P0 = models.spd(rng, n, 10, float(rng.choice([0.3, 1.0])))
        self.phi, self.psi = "sin", "cos"
        self.tags = ""
        if rng.rand() < structure:
            self._structured(rng)
        self.scalar_obs = m == 1 and rng.rand() < 0.3
        self.returns = str(rng.choice(["array", "list", "tuple", "readonly"], p=[0.7, 0.1, 0.1, 0.1]))
        self.log = None
        self.switch = None
        self.sx = self.sz = 1.0                    # units of the state and of the observations
        self.ux = self.uz = 1.0                    # magnitudes below which an error does not count

    def units(self, rng, p=0.3):
        """With probability p, express the model in other units."""
        if rng.rand() < p:
            r = rng.choice([3, 3, 6, 12])
            self.rescale(float(10.0 ** rng.uniform(-r, r)) if rng.rand() < 0.7 else 1.0,
                         float(10.0 ** rng.uniform(-r, r)) if rng.rand() < 0.7 else 1.0)
        return self

    def rescale(self, sx, sz):
        self.sx, self.sz = self.sx * sx, self.sz * sz
        self.ux, self.uz = self.ux * sx, self.uz * sz
        self.mu0, self.P0, self.Q, self.R = self.mu0 * sx, self.P0 * sx**2, self.Q * sx**2, self.R * sz**2
        self.tags += " units"

    def _structured(self, rng):
        """Special values that a special case or an optimisation in the code could single out."""
        n, m = self.n, self.m
        some = lambda: rng.rand() < 0.4  # noqa: E731
        self.phi, self.psi = str(rng.choice(list(PHI))), str(rng.choice(list(PHI)))
        tags = [self.phi, self.psi]
        if some():
            self.mu0 = rng.choice([0.0, 1.0]) * np.ones(n); tags.append("mu0")
        if some():
            self.b = [np.zeros(n) for _ in self.b]; tags.append("b0")
        if some():
            self.d = [np.zeros(m) for _ in self.d]; tags.append("d0")
        if some():
            k = str(rng.choice(["eye", "zero", "minus", "diag"]))
            self.A = [dict(eye=np.eye(n), zero=np.zeros((n, n)), minus=-np.eye(n) * 0.9,
                           diag=np.diag(rng.uniform(-1, 1, n)))[k] for _ in self.A]
            tags.append("A" + k)
        if some():
            k = str(rng.choice(["eye", "zero", "ones"]))
            self.C = [dict(eye=np.eye(m, n), zero=np.zeros((m, n)), ones=np.ones((m, n)))[k] for _ in self.C]
            tags.append("C" + k)
        if some():
            self.B = [np.eye(n) for _ in self.B]; self.D = [np.eye(m, n) for _ in self.D]
        if some():
            self.G = [np.eye(n) for _ in self.G]; self.H = [np.eye(m) for _ in self.H]
        if some():
            self.Q = 0.5 * np.eye(n); tags.append("Qeye")
        if some():
            self.R = 0.5 * np.eye(m); tags.append("Reye")
        if some():
            self.P0 = self.Q.copy(); tags.append("P0=Q")
        if n == m and some():
            self.R = self.Q.copy(); tags.append("R=Q")
        if len(self.A) > 1 and some():
            for X in (self.A, self.b, self.B, self.G):
                X[1:] = [X[-1]] * (len(X) - 1)
        self.tags = "structured(%s)" % " ".join(tags[:3])

    def _ret(self, y, obs=True):
        """The value of a user function, in the form this model's functions use."""
        if obs and self.scalar_obs:
            return float(y[0])
        if self.returns == "readonly":
            y = y + 0.0
            y.flags.writeable = False
            return y
        return y if self.returns == "array" else {"list": list, "tuple": tuple}[self.returns](y.tolist())

    def raw_f(self, i, x, w=None):
        if self.sx != 1.0:
            return self.sx * self._f(i, x / self.sx, None if w is None else w / self.sx)
        return self._f(i, x, w)

    def raw_g(self, i, x, v=None):
        if self.sx != 1.0 or self.sz != 1.0:
            return self.sz * self._g(i, x / self.sx, None if v is None else v / self.sz)
        return self._g(i, x, v)

    def _f(self, i, x, w=None):
        y = self.A[i].dot(x) + self.b[i] + self.e * PHI[self.phi](self.B[i].dot(x))
        if w is not None:
            y = y + self.G[i].dot(w) + (0 if self.affine else 0.1 * self.e * w * np.tanh(x))
        return y

    def _g(self, i, x, v=None):
        y = self.C[i].dot(x) + self.d[i] + self.e * PHI[self.psi](self.D[i].dot(x))
        if self.affine:
            y = self.C[i].dot(x) + self.d[i]
        if v is not None:
            y = y + self.H[i].dot(v) + (0 if self.affine else 0.1 * self.e * v * np.tanh(y))
        return y

    def f(self, t):
        i = t if len(self.A) > 1 else 0
        if self.additive:
            return lambda x: self.raw_f(i, x)
        return lambda x, w: self.raw_f(i, x, w)

    def g(self, t):
        i = t if len(self.C) > 1 else 0
        if self.additive:
            return lambda x: self.raw_g(i, x)
        return lambda x, v: self.raw_g(i, x, v)

    # functions handed to the library: same values, recorded
    def _lib(self, which, i):
        raw = self.raw_f if which == "f" else self.raw_g
        ret = lambda y: self._ret(y, which == "g")  # noqa: E731

        def rec(x, nz=None):
            if self.log is not None:
                self.log.append((which, i, np.array(x, float),
                                 None if nz is None else np.array(nz, float)))
            if self.switch is not None:
                self.switch()
            return ret(raw(i, np.asarray(x), nz))

        if self.additive:
            return lambda x: rec(x)
        return lambda x, nz: rec(x, nz)

    def lib_f(self, t):
        return self._lib("f", t if len(self.A) > 1 else 0)

    def lib_g(self, t):
        return self._lib("g", t if len(self.C) > 1 else 0)

    def funcs(self, rng=None):
        F = [self._lib("f", i) for i in range(len(self.A))]
        G = [self._lib("g", i) for i in range(len(self.C))]
        as_list = rng is not None and rng.rand() < 0.5

        def pack(fs):
            if len(fs) == 1:
                return fs[0]
            return list(fs) if as_list else np.array(fs, dtype=object)

        return pack(F), pack(G)

    def make(self, cls, rng=None, **over):
        F, G = self.funcs(rng)
        kw = dict(transition_functions=F, observation_functions=G,
                  transition_covariance=self.Q.copy(), observation_covariance=self.R.copy(),
                  initial_state_mean=self.mu0.copy(), initial_state_covariance=self.P0.copy())
        kw.update(over)
        return models.cls_of(cls)(**kw)

    def simulate(self, rng):
        x = np.zeros((self.T, self.n)); z = np.zeros((self.T, self.m))
        ch = np.linalg.cholesky
        Lq, Lr, L0 = ch(self.Q), ch(self.R), ch(self.P0)
        for t in range(self.T):
            w, v = Lq.dot(rng.randn(self.n)), Lr.dot(rng.randn(self.m))
            if t == 0:
                x[0] = self.mu0 + L0.dot(rng.randn(self.n))
            elif self.additive:
                x[t] = self.f(t - 1)(x[t - 1]) + w
            else:
                x[t] = self.f(t - 1)(x[t - 1], w)
            z[t] = self.g(t)(x[t]) + v if self.additive else self.g(t)(x[t], v)
        return x, z

    def observations(self, rng, kind=None):
        z = self.simulate(rng)[1]
        u = rng.rand()
        if u < 0.05:
            z[:] = 0.0
        elif u < 0.1:
            z[:] = z[0]
        elif u < 0.15:
            x = self.mu0
            for t in range(self.T):
                if t:
                    x = self.f(t - 1)(x) if self.additive else self.f(t - 1)(x, np.zeros(self.n))
                z[t] = self.g(t)(x) if self.additive else self.g(t)(x, np.zeros(self.m))
        elif u < 0.2:
            z[rng.randint(self.T)] *= 10.0 ** rng.randint(1, 4)
        kind, k = models.mask(rng, self.T, self.m, kind)
        if kind == "none":
            return z, np.ones(self.T, bool), kind
        if kind == "nomask":
            return np.ma.array(z), np.ones(self.T, bool), kind
        z[k] = rng.choice([0.0, 1e5, -3.0]) * self.sz
        return np.ma.array(z, mask=k), ~k.any(axis=1), kind

    def reference(self, Z, observed):
        """(fm, fc, sm, sc) by the independent unscented transform, or None."""
        fn = oracle.ut_additive if self.additive else oracle.ut_augmented
        data = np.ma.getdata(Z).astype(float)
        try:
            r = fn(self.f, self.g, self.Q, self.R, self.mu0, self.P0, data, observed)
            # the answer must not hinge on the last digits of the data (chaotic models)
            w = 1 + 1e-14 * np.cos(1 + np.arange(data.size).reshape(data.shape))
            p = fn(self.f, self.g, self.Q, self.R, self.mu0 * (1 + 1e-14), self.P0, data * w, observed)
        except np.linalg.LinAlgError:
            return None
        for x, y, u in zip(r, p, (self.ux, self.ux**2, self.ux, self.ux**2)):
            if not np.abs(x - y).max() <= 1e-9 * max(u, np.abs(x).max()):
                return None
        for c in list(r[1]) + list(r[3]):
            ev = np.linalg.eigvalsh(0.5 * (c + c.T))
            if not (np.isfinite(ev).all() and ev[0] > 1e-5 * ev[-1]):
                return None
        return r

    def signature(self):
        return "n%d m%d T%d tv%d%d e%g %s" % (
            self.n, self.m, min(self.T, 4), self.tvf, self.tvg, self.e,
            "scalar" if self.scalar_obs else "") + self.tags

    def describe(self):
        return {"n": self.n, "m": self.m, "T": self.T, "e": self.e, "A": self.A, "B": self.B,
                "b": self.b, "C": self.C, "d": self.d, "Q": self.Q, "R": self.R,
                "mu0": self.mu0, "P0": self.P0, "units": (self.sx, self.sz), "additive": self.additive,
                "functions": (self.phi, self.psi), "tags": self.tags}


def pick(rng):
    return str(rng.choice(UNSC))


def compare(ctx, N, got, ref_m, ref_c, mech, what, tol=1e-8, **detail):
    ctx.check(isinstance(got, tuple) and len(got) == 2, mech + "/shape", what + " returns a pair")
    m = ctx.shape(got[0], (N.T, N.n), mech, what + " means")
    c = ctx.shape(got[1], (N.T, N.n, N.n), mech, what + " covariances")
    ctx.close(c, ref_c, max(N.ux**2, np.abs(ref_c).max()), mech + "/cov", what + " covariance", tol,
              model=N.describe(), **detail)
    ctx.close(m, ref_m, max(N.ux, np.abs(ref_m).max()), mech + "/mean", what + " mean", tol,
              model=N.describe(), **detail)
