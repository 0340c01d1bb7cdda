"""P22: the public numerical building blocks do what they document."""

import importlib
import traceback

import numpy as np

from .. import models

RULE = ("random input to one numerical helper, checked against its defining equation; distinct by helper, "
        "dimension, sign and size of the weights, scaling parameters, conditioning class")


def helper(ctx, module, name):
    """The helper, or None (counted) when this tree has none by that name."""
    try:
        fn = getattr(importlib.import_module("pykalman." + module), name)
    except (ImportError, AttributeError):
        ctx.saw("absent:" + name)
        return None
    return fn


class Gone(Exception):
    pass


def run(ctx, name, fn, *args, **kw):
    """Call a helper; a call that its signature does not accept is counted, not judged."""
    ctx.counts["library_calls"] += 1
    try:
        return fn(*args, **kw)
    except TypeError as e:
        if len(traceback.extract_tb(e.__traceback__)) == 1:
            ctx.saw("signature:" + name)
            raise Gone()
        ctx.violation(name + "/raised", "%s raised TypeError: %s" % (name, str(e)[:200]),
                      traceback=traceback.format_exc()[-1500:])
    except Exception as e:  # noqa: BLE001
        ctx.violation(name + "/raised", "%s raised %s: %s" % (name, type(e).__name__, str(e)[:200]),
                      traceback=traceback.format_exc()[-1500:])


def judged(fn):
    def wrapped(ctx, rng):
        try:
            fn(ctx, rng)
        except Gone:
            pass
    return wrapped


def unchanged(ctx, name, pairs):
    for a, b in pairs:
        ctx.check(np.array_equal(a, b), name + "/argument", name + " modified its argument")


def pd(rng, n, cond=1e3):
    return models.spd(rng, n, cond, 10.0 ** float(rng.choice([0, 0, -8, 8, -3, 3])))


@judged
def update(ctx, rng):
    fn = helper(ctx, "sqrt.unscented", "cholupdate")
    if fn is None:
        return
    n = int(rng.randint(1, 7))
    A = pd(rng, n)
    s = np.sqrt(np.abs(A).max())
    k = int(rng.choice([0, 1, 1, 2, 3, 5]))
    w = float(rng.choice([1.0, 0.3, -0.2, -1.0, 2.5, 1e-3, -1e-3, 0.0]))
    X = rng.randn(max(k, 1), n) * s * float(rng.choice([1.0, 0.3, 3.0]))
    if rng.rand() < 0.3:
        X[:, rng.rand(n) < 0.5] = 0.0
    if w < 0:
        # keep every intermediate matrix positive definite
        L = np.linalg.cholesky(A)
        q = sum(np.sum(np.linalg.solve(L, x) ** 2) for x in X)
        if q > 0:
            X *= np.sqrt(rng.choice([0.1, 0.5, 0.9]) / (abs(w) * q)) if abs(w) * q > 0.9 else 1.0
    # components in different units: the factor's columns scale with the vectors
    d = 10.0 ** rng.uniform(-10, 10, n) if rng.rand() < 0.4 else np.ones(n)
    X = X * d
    arg = X[0] if k == 0 else X
    R0 = np.linalg.cholesky(A).T * d
    if rng.rand() < 0.3:
        R0 = np.asfortranarray(R0)
    c1, c2 = R0.copy(), arg.copy()
    R = np.asarray(run(ctx, "cholupdate", fn, R0, arg, w), float)
    unchanged(ctx, "cholupdate", [(R0, c1), (arg, c2)])
    R, X = R / d, X / d
    ref = A + w * X.T.dot(X)
    ctx.close(R.T.dot(R), ref, np.abs(ref).max() + np.abs(A).max(), "cholupdate",
              "cholupdate(weight %g, %d vectors): product of the result" % (w, len(X)), 1e-9, A=A, X=X)
    ctx.close(np.tril(R, -1), np.zeros((n, n)), np.abs(R).max(), "cholupdate/triangular",
              "cholupdate: entries below the diagonal", 1e-9)
    ctx.saw("helpers")
    ctx.saw("cholupdate")
    ctx.saw("mixed_units", int((d != 1).any()))
    ctx.sig("cholupdate", n, k, w, (d != 1).any())


@judged
def chain(ctx, rng):
    """Histories of updates and downdates return to where they started."""
    fn = helper(ctx, "sqrt.unscented", "cholupdate")
    if fn is None:
        return
    n = int(rng.randint(1, 6))
    A = pd(rng, n, 100)
    s = np.sqrt(np.abs(A).max())
    R = np.linalg.cholesky(A).T
    cur, stack = A.copy(), []
    for _ in range(int(rng.randint(3, 12))):
        if stack and rng.rand() < 0.45:
            x, w = stack.pop(int(rng.randint(len(stack))))
            w = -w
        else:
            x, w = rng.randn(n) * s, float(rng.uniform(0.05, 1.5))
            stack.append((x, w))
        R = np.asarray(run(ctx, "cholupdate", fn, R, x, w), float)
        cur = cur + w * np.outer(x, x)
    for x, w in stack[::-1]:
        R = np.asarray(run(ctx, "cholupdate", fn, R, x, -w), float)
    ctx.close(R.T.dot(R), A, np.abs(A).max() * 20, "cholupdate/history", "updates undone in another order", 1e-8)
    del cur
    ctx.saw("helpers")
    ctx.saw("history")
    ctx.sig("chain", n)


@judged
def factor(ctx, rng):
    fn = helper(ctx, "sqrt.bierman", "udu")
    if fn is None:
        return
    n = int(rng.randint(1, 8))
    kind = str(rng.choice(["pd", "pd", "zero-rows", "low-rank", "diag", "zero"]))
    M = models.spd(rng, n, 1e4, 10.0 ** float(rng.choice([0, 0, -9, 9, 3])))
    if kind == "zero-rows":
        k = rng.rand(n) < 0.5
        M[k] = 0
        M[:, k] = 0
    elif kind == "low-rank":
        # exactly representable
        v = rng.randint(-3, 4, n).astype(float)
        v[-1] = 2.0 ** rng.randint(0, 3)
        M = np.outer(v, v)
    elif kind == "diag":
        M = np.diag(rng.uniform(0, 3, n) * (rng.rand(n) < 0.7))
    elif kind == "zero":
        M = np.zeros((n, n))
    c = M.copy()
    d = run(ctx, "udu", fn, M)
    unchanged(ctx, "udu", [(M, c)])
    if not (hasattr(d, "U") and hasattr(d, "D")):
        ctx.saw("signature:udu")
        return
    U, D = np.asarray(d.U, float), np.asarray(d.D, float)
    s = max(np.abs(M).max(), 1e-300)
    ctx.close(U.dot(np.diag(D)).dot(U.T), M, s, "udu", "udu(%s): U D U'" % kind, 1e-9, M=M)
    ctx.check(np.allclose(np.tril(U, -1), 0) and np.allclose(np.diag(U), 1), "udu/form",
              "udu(%s): U is not unit upper triangular" % kind, U=U)
    ctx.check((D >= -1e-9 * s).all(), "udu/positive", "udu(%s): negative diagonal" % kind, D=D)
    if hasattr(d, "reconstruct"):
        ctx.close(d.reconstruct(), M, s, "udu/reconstruct", "UDU_decomposition.reconstruct", 1e-9)
    ctx.saw("helpers")
    ctx.saw("udu:" + kind)
    ctx.sig("udu", n, kind)


@judged
def decorrelate(ctx, rng):
    fn = helper(ctx, "sqrt.bierman", "decorrelate_observations")
    if fn is None:
        return
    m, n, T = int(rng.randint(1, 6)), int(rng.randint(1, 6)), int(rng.randint(1, 6))
    R = pd(rng, m)
    C = rng.randn(T, m, n) if rng.rand() < 0.5 else rng.randn(m, n)
    d = rng.randn(T, m) if rng.rand() < 0.5 else rng.randn(m)
    z = rng.randn(T, m) * np.sqrt(np.abs(R).max())
    args = (C, d, R, z)
    copies = [a.copy() for a in args]
    out = run(ctx, "decorrelate_observations", fn, *args)
    unchanged(ctx, "decorrelate_observations", zip(args, copies))
    if not (isinstance(out, tuple) and len(out) == 4):
        ctx.saw("signature:decorrelate_observations")
        return
    C2, d2, R2, z2 = [np.asarray(o, float) for o in out]
    for a, b, what in ((C2, C, "matrices"), (d2, d, "offsets"), (z2, z, "observations"), (R2, R, "covariance")):
        ctx.check(a.shape == b.shape, "decorrelate/shape", "decorrelated %s have shape %s" % (what, a.shape))
    ctx.close(R2 - np.diag(np.diag(R2)), np.zeros((m, m)), np.abs(R2).max(), "decorrelate/diagonal",
              "off-diagonal noise covariance", 1e-12)
    ctx.check((np.diag(R2) > 0).all(), "decorrelate/diagonal", "noise variance not positive")
    x = rng.randn(n)
    Ri = np.linalg.inv(R)
    for t in range(T):
        # the map is linear and keeps every Mahalanobis product
        v = [z[t], d[t] if d.ndim > 1 else d] + list((C[t] if C.ndim > 2 else C).T)
        v2 = [z2[t], d2[t] if d2.ndim > 1 else d2] + list((C2[t] if C2.ndim > 2 else C2).T)
        e = v[0] - v[1] - (C[t] if C.ndim > 2 else C).dot(x)
        e2 = v2[0] - v2[1] - (C2[t] if C2.ndim > 2 else C2).dot(x)
        v.append(e)
        v2.append(e2)
        V, V2 = np.array(v), np.array(v2)
        g = V.dot(Ri).dot(V.T)
        nrm = np.sqrt(np.abs(np.diag(g)))
        ctx.close((V2 / np.diag(R2)).dot(V2.T), g, np.outer(nrm, nrm) + 1e-300, "decorrelate",
                  "observation model after decorrelation (Mahalanobis products, step %d)" % t, 1e-8, R=R)
    ctx.saw("helpers")
    ctx.saw("decorrelate")
    ctx.sig("decorrelate", m, n, C.ndim, d.ndim)


@judged
def sigma(ctx, rng):
    sqrt = rng.rand() < 0.5
    mod = "sqrt.unscented" if sqrt else "unscented"
    m2p, p2m = helper(ctx, mod, "moments2points"), helper(ctx, mod, "points2moments")
    Mom = helper(ctx, "unscented", "Moments")
    if m2p is None or p2m is None or Mom is None:
        return
    n = int(rng.randint(1, 7))
    P = models.spd(rng, n, 100, 10.0 ** float(rng.choice([0, 0, -6, 6])))
    mu = rng.randn(n) * np.sqrt(np.abs(P).max()) * float(rng.choice([0, 1, 10]))
    kw = {}
    alpha = 1.0
    if rng.rand() < 0.6:
        alpha = kw["alpha"] = float(rng.choice([1.0, 0.5, 0.1, 0.01, 1.7]))
    if rng.rand() < 0.5:
        kw["beta"] = float(rng.choice([0.0, 2.0, 1.0, 3.5]))
    if rng.rand() < 0.5:
        kw["kappa"] = float(rng.choice([0.0, 1.0, 3.0, -0.5, 3.0 - n if n < 3 else 0.5]))
    F = np.linalg.cholesky(P).T if sqrt else P
    c1, c2 = F.copy(), mu.copy()
    pts = run(ctx, "moments2points", m2p, Mom(mu, F), **kw)
    unchanged(ctx, "moments2points", [(F, c1), (mu, c2)])
    X, wm, wc = [np.asarray(v, float) for v in pts]
    ctx.check(X.shape == (2 * n + 1, n) and wm.shape == (2 * n + 1,) and wc.shape == (2 * n + 1,),
              "sigma/shape", "%s.moments2points: shapes %s %s %s" % (mod, X.shape, wm.shape, wc.shape))
    s = np.sqrt(np.abs(P).max())
    amp = 1 / min(alpha, 1.0) ** 2
    what = "%s sigma points (%s): " % (mod, kw)
    ctx.close(wm.sum(), 1.0, amp, "sigma/weights", what + "mean weights sum", 1e-9)
    ctx.close(X.T.dot(wm), mu, (s + np.abs(mu).max()) * amp, "sigma/mean", what + "weighted mean", 1e-9)
    D = X - mu
    ctx.close((D.T * wc).dot(D), P, s * s * amp, "sigma/cov", what + "weighted covariance", 1e-8)
    # documented scaling: distance and weights
    n_ = n
    kappa = kw.get("kappa", 3.0 - n_)
    lam = alpha ** 2 * (n_ + kappa) - n_
    ctx.close(wc[0] - wm[0], 1 - alpha ** 2 + kw.get("beta", 0.0), amp, "sigma/weights",
              what + "centre covariance weight", 1e-9)
    ctx.close(wm[0], lam / (n_ + lam), amp, "sigma/weights", what + "centre weight", 1e-9)
    ctx.close(wm[1:], np.full(2 * n, 0.5 / (n_ + lam)), amp, "sigma/weights", what + "outer weights", 1e-9)
    # back to moments, with and without noise
    N = models.spd(rng, n, 50, float(np.abs(P).max())) if rng.rand() < 0.5 else None
    nkw = {} if N is None else {("sigma2_noise" if sqrt else "sigma_noise"): np.linalg.cholesky(N).T if sqrt else N}
    mom = run(ctx, "points2moments", p2m, pts, **nkw)
    m, c = np.asarray(mom[0], float), np.asarray(mom[1], float)
    if sqrt:
        c = c.T.dot(c)
    tot = P if N is None else P + N
    ctx.close(m.ravel(), mu, (s + np.abs(mu).max()) * amp, "sigma/roundtrip-mean", what + "recovered mean", 1e-9)
    ctx.close(c, tot, np.abs(tot).max() * amp * max(1.0, np.abs(mu).max() / s) ** 2, "sigma/roundtrip-cov",
              what + "recovered covariance", 1e-8)
    ctx.saw("helpers")
    ctx.saw("sigma:" + mod)
    ctx.sig("sigma", mod, n, sorted(kw.items()), N is None)


@judged
def transform(ctx, rng):
    """The unscented transform is exact on affine functions, and the identity without one."""
    ut, m2p = helper(ctx, "unscented", "unscented_transform"), helper(ctx, "unscented", "moments2points")
    Mom = helper(ctx, "unscented", "Moments")
    if ut is None or m2p is None or Mom is None:
        return
    n, k = int(rng.randint(1, 6)), int(rng.randint(1, 5))
    P, mu = models.spd(rng, n, 50), rng.randn(n)
    A, b = rng.randn(k, n), rng.randn(k)
    pts = run(ctx, "moments2points", m2p, Mom(mu, P))
    with_f = rng.rand() < 0.8
    N = models.spd(rng, k if with_f else n, 20) if rng.rand() < 0.5 else None
    kw = {} if N is None else {"sigma_noise": N}
    if with_f:
        out = run(ctx, "unscented_transform", ut, pts, lambda x: A.dot(x) + b, **kw)
        ref = A.dot(mu) + b, A.dot(P).dot(A.T) + (0 if N is None else N)
    else:
        out = run(ctx, "unscented_transform", ut, pts, **kw)
        ref = mu, P + (0 if N is None else N)
    mom = out[1]
    ctx.close(np.asarray(mom[0], float).ravel(), ref[0], np.abs(ref[0]).max() + 3, "transform/mean",
              "unscented_transform mean", 1e-9)
    ctx.close(mom[1], ref[1], np.abs(ref[1]).max() + 1, "transform/cov", "unscented_transform covariance", 1e-9)
    ctx.saw("helpers")
    ctx.saw("transform")
    ctx.sig("transform", n, k, with_f, N is None)


@judged
def density(ctx, rng):
    fn = helper(ctx, "utils", "log_multivariate_normal_density")
    if fn is None:
        return
    m, N, K = int(rng.randint(1, 6)), int(rng.randint(1, 6)), int(rng.randint(1, 4))
    covs = np.array([pd(rng, m) for _ in range(K)])
    s = np.sqrt(np.abs(covs).max())
    mus, X = rng.randn(K, m) * s, rng.randn(N, m) * s
    args = (X, mus, covs)
    copies = [a.copy() for a in args]
    got = np.asarray(run(ctx, "log_multivariate_normal_density", fn, *args), float)
    unchanged(ctx, "log_multivariate_normal_density", zip(args, copies))
    ref = np.zeros((N, K))
    mag = np.ones((N, K))
    for j in range(K):
        L = np.linalg.cholesky(covs[j])
        y = np.linalg.solve(L, (X - mus[j]).T)
        q, ld = (y ** 2).sum(axis=0), 2 * np.log(np.diag(L)).sum()
        ref[:, j] = -0.5 * (q + ld + m * np.log(2 * np.pi))
        mag[:, j] = q + abs(ld) + m
    ctx.close(got, ref, mag, "density", "log_multivariate_normal_density", 1e-8, X=X, means=mus, covars=covs)
    ctx.saw("helpers")
    ctx.saw("density")
    ctx.sig("density", m, N, K)


KINDS = {"update": update, "chain": chain, "factor": factor, "decorrelate": decorrelate, "sigma": sigma,
         "transform": transform, "density": density}
PLAN = {"quick": {"update": 4000, "chain": 1200, "factor": 2500, "decorrelate": 2000, "sigma": 4000,
                  "transform": 1500, "density": 1500},
        "thorough": {"update": 120000, "chain": 40000, "factor": 80000, "decorrelate": 60000, "sigma": 120000,
                     "transform": 40000, "density": 40000}}
REQUIRED = ["helpers"]
ASSUMPTIONS = ["downdated matrices stay positive definite", "singular input to udu is exactly representable",
               "a helper that has another name or signature is counted, not judged"]
