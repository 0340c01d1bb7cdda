"""P06: EM never decreases the likelihood."""

import numpy as np

from .. import emcommon as em, lincommon as lc, models

RULE = ("random starting model, data from an unrelated model, random missing pattern and subset of "
        "estimated parameters, followed iteration by iteration; distinct by class, dimensions, "
        "subset and mask; non-trivial when the likelihood moved by more than rounding")


def exact_ll(M, Z, obs):
    """(loglik, magnitude, ok) by the extended-precision reference."""
    for k in ("Q", "R", "P0"):
        c = M.p[k]
        c = c if c.ndim == 3 else c[None]
        for x in c:
            w = np.linalg.eigvalsh(0.5 * (x + x.T))
            if not np.isfinite(w).all() or w[0] <= 1e-4 * w[-1]:
                return None, None, False
    try:
        r = lc.Ref(M, Z, obs, recursive=True)
    except np.linalg.LinAlgError:
        return None, None, False
    ok = np.isfinite(r.ll) and max(r.Sc, r.cond_P) < 2e4 and r.cs.max() < 1e4 * r.cs[0]
    N = int(obs.sum()) * M.m
    return r.ll, N + abs(r.ll), ok


def other_units(rng, z, *Ms):
    """The same problem in other units."""
    sx, sz = models.scales(rng, 0.5)
    for M in Ms:
        models.rescale(M, sx, sz)
    return z * sz


def climb(ctx, rng):
    cls = lc.pick_class(rng)
    n, m = int(rng.randint(1, 4)), int(rng.randint(1, 4))
    T = 6 + int(rng.choice([2, 3, 5])) * (n + m)
    ev, keys = em.subset(rng)
    # fixed parameters may vary over time; a time-varying noise covariance only when nothing
    # that is weighted by it is estimated
    ok_tv = [k for k in lc.TV[cls] if k not in keys]
    if keys & {"A", "b"}:
        ok_tv = [k for k in ok_tv if k != "Q"]
    if keys & {"C", "d"}:
        ok_tv = [k for k in ok_tv if k != "R"]
    M = models.lin(rng, n=n, m=m, T=T, tv_ok=tuple(ok_tv), tvp=0.4, scale=False)
    G = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    z = models.simulate(rng, G if rng.rand() < 0.6 else M)[1]
    z = other_units(rng, z, M)
    Z, obs, mk = models.observations(rng, M, z)
    kf = ctx.call("construct", cls, M.make, cls)
    ll, mag, ok = exact_ll(M, Z, obs)
    if not ok:
        ctx.saw("skipped:start")
        return
    steps = int(rng.randint(1, 5))
    hist = [ll]
    moved = 0.0
    for i in range(steps):
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=1, em_vars=ev)
        M2 = em.params_of(kf, M)
        for key in ("Q", "R", "P0"):
            c = M2.p[key]
            s = np.abs(c).max()
            ctx.check(np.isfinite(c).all(), "em-cov/" + key, "%s.em: %s is finite" % (cls, key),
                      model=M.describe(), Z=Z, em_vars=str(ev))
            ctx.close(c, np.swapaxes(c, -1, -2), s, "em-cov/symmetric",
                      "%s.em: %s symmetric" % (cls, key), 1e-7)
            ctx.check(np.linalg.eigvalsh(c).min() >= -1e-7 * s, "em-cov/psd",
                      "%s.em: %s positive semi-definite" % (cls, key), model=M.describe(), Z=Z,
                      em_vars=str(ev), value=c)
        l2, mag2, ok = exact_ll(M2, Z, obs)
        if not ok:
            ctx.saw("stopped:degenerate")
            break
        tol = 1e-8 * max(mag, mag2, 1.0)
        ctx.saw("steps")
        ctx.check(l2 >= ll - tol, "em-monotone",
                  "%s.em(%s): log-likelihood fell from %.12g to %.12g at iteration %d" % (
                      cls, ev, ll, l2, i), model=M.describe(), Z=Z, em_vars=str(ev), history=hist)
        own = ctx.call("loglik", cls, kf.loglikelihood, Z)
        ctx.close(float(own), l2, max(mag2, 1.0), "em-loglik",
                  cls + ".loglikelihood after EM", 1e-8, model=M.describe(), Z=Z, em_vars=str(ev))
        moved = max(moved, (l2 - ll) / max(mag, 1))
        ll, mag = l2, mag2
        hist.append(ll)
    ctx.saw("climb:" + cls)
    if moved > 1e-6:
        ctx.saw("improved")
        ctx.sig(cls, n, m, T, "".join(sorted(keys)), mk, "".join(sorted(M.tv)))


def converge(ctx, rng):
    """Long EM runs from poor starts, default parameter set, realistic sizes."""
    cls = lc.pick_class(rng)
    n, m = int(rng.randint(1, 4)), int(rng.randint(1, 3))
    T = int(rng.choice([60, 120]))
    G = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    z = models.simulate(rng, G)[1]
    Z, obs, mk = models.observations(rng, G, z, kind=str(rng.choice(["none", "rows", "partial"])))
    kf = ctx.call("construct", cls, models.cls_of(cls), transition_matrices=G.p["A"],
                  observation_matrices=G.p["C"], transition_offsets=G.p["b"],
                  observation_offsets=G.p["d"], n_dim_state=n, n_dim_obs=m)
    prev = None
    for _ in range(6):
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=3)
        M2 = em.params_of(kf, G)
        ll, mag, ok = exact_ll(M2, Z, obs)
        if not ok:
            break
        if prev is not None:
            ctx.check(ll >= prev - 1e-8 * max(mag, 1), "em-monotone",
                      "%s.em: log-likelihood fell from %.12g to %.12g" % (cls, prev, ll),
                      model=G.describe())
            ctx.saw("long_steps")
        prev = ll
    ctx.sig("converge", cls, n, m, T, mk)


def follow(ctx, rng, cls, M, Z, obs, mk, tag, limit):
    """Many EM iterations, checked every few."""
    ev = [["transition_covariance", "observation_covariance"], em.DEFAULT, ["transition_covariance"],
          ["observation_covariance", "initial_state_mean", "initial_state_covariance"]][rng.choice(4, p=[.5, .2, .2, .1])]
    kf = ctx.call("construct", cls, M.make, cls)
    ll, mag, ok = exact_ll(M, Z, obs)
    if not ok:
        ctx.saw("skipped:start")
        return
    chunk = int(rng.choice([3, 6]))
    done = 0
    while done < limit:
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=chunk, em_vars=ev)
        done += chunk
        M2 = em.params_of(kf, M)
        for key in ("Q", "R", "P0"):
            c = M2.p[key]
            s = np.abs(c).max()
            ctx.close(c, c.T, s, "em-cov/symmetric", "%s.em: %s symmetric after %d iterations" % (cls, key, done),
                      1e-7, em_vars=str(ev))
            ctx.check(np.linalg.eigvalsh(c).min() >= -1e-7 * s, "em-cov/psd",
                      "%s.em: %s positive semi-definite after %d iterations" % (cls, key, done),
                      em_vars=str(ev), value=c)
        l2, mag2, ok = exact_ll(M2, Z, obs)
        if not ok:
            ctx.saw("stopped:degenerate")
            break
        ctx.check(l2 >= ll - 1e-8 * max(mag, mag2), "em-monotone",
                  "%s.em(%s): log-likelihood fell from %.12g to %.12g by iteration %d" % (cls, ev, ll, l2, done),
                  model=M.describe())
        own = ctx.call("loglik", cls, kf.loglikelihood, Z)
        ctx.close(float(own), l2, max(mag2, 1.0), "em-loglik", cls + ".loglikelihood after EM", 1e-8,
                  model=M.describe(), em_vars=str(ev))
        ll, mag = l2, mag2
        ctx.saw(tag + "_iterations", chunk)
    if done >= 2 * limit // 3:
        ctx.saw(tag + ":" + cls)
        ctx.sig(tag, cls, M.n, M.m, M.T, len(ev), mk)


def patient(ctx, rng):
    """Many iterations on tracking models: rounding errors must not build up from one to the next."""
    cls = lc.pick_class(rng)
    k = int(rng.randint(1, 3))                      # axes, each a chain of integrators
    order = int(rng.choice([2, 2, 3]))
    damp = float(rng.choice([1.0, 1.0, 0.98, 1.02]))
    dt = float(rng.choice([0.1, 0.5, 1.0]))
    a = damp * np.eye(order) + np.diag(np.full(order - 1, dt), 1)
    A = np.kron(np.eye(k), a)
    n = k * order
    if rng.rand() < 0.4:                            # constant extra states, as in the robot data
        A = np.block([[A, rng.randn(n, 1) * 0.1], [np.zeros((1, n)), np.eye(1)]])
        n += 1
    C = np.zeros((k, n))
    C[np.arange(k), np.arange(k) * order] = 1
    if n > k * order:
        C[:, -1] = rng.randn(k) * 0.3
    T = int(rng.choice([80, 160, 240]))
    M = models.lin(rng, n=n, m=k, T=T, tv=set(), scale=False)
    M = M.copy(A=A, C=C, b=np.zeros(n), d=np.zeros(k), Q=10.0 * np.eye(n) * float(rng.choice([1, 0.1])),
               R=10.0 * np.eye(k), mu0=np.zeros(n), P0=np.eye(n))
    M.T, M.tv = T, set()
    S = M.copy(Q=models.spd(rng, n, scale=0.1), R=models.spd(rng, k, scale=1.0), A=np.minimum(A, 1.0))
    S.T, S.tv = T, set()
    z = other_units(rng, models.simulate(rng, S)[1], M)
    Z, obs, mk = models.observations(rng, M, z, kind=str(rng.choice(["none", "rows"])))
    follow(ctx, rng, cls, M, Z, obs, mk, "patient", 36)


def robot(ctx, rng):
    """The bundled data, a window of it, its published model."""
    from pykalman.datasets import load_robot
    d = load_robot()
    cls = lc.pick_class(rng) if rng.rand() < 0.5 else "KalmanFilter"
    T = int(rng.choice([120, 250, 501]))
    t0 = int(rng.randint(0, 502 - T))
    M = models.lin(rng, n=5, m=2, T=T, tv=set(), scale=False)
    M = M.copy(A=d.transition_matrix, C=d.observation_matrix, b=np.array(d.transition_offsets)[t0:t0 + T - 1],
               d=d.observation_offset, Q=np.array(d.initial_transition_covariance, float),
               R=np.array(d.initial_observation_covariance, float),
               mu0=np.array(d.initial_state_mean, float), P0=np.array(d.initial_state_covariance, float))
    M.T, M.tv = T, {"b"}
    Z = np.ma.masked_array(np.array(np.ma.getdata(d.observations)[t0:t0 + T], float),
                           mask=np.ma.getmaskarray(d.observations)[t0:t0 + T])
    if t0:
        M.p["mu0"] = np.array(d.smoothed_state_means[t0], float)
    obs = ~np.ma.getmaskarray(Z).any(axis=1)
    follow(ctx, rng, cls, M, Z, obs, "robot", "robot", 30)


def oneshot(ctx, rng):
    """Many iterations in one call against fewer in one call."""
    cls = lc.pick_class(rng)
    n, m = int(rng.randint(1, 3)), int(rng.randint(1, 3))
    T = 10 + 4 * (n + m)
    ev, keys = em.subset(rng)
    M = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    G = models.lin(rng, n=n, m=m, T=T, tv=set(), scale=False)
    z = other_units(rng, models.simulate(rng, G if rng.rand() < 0.6 else M)[1], M)
    Z, obs, mk = models.observations(rng, M, z)
    i = int(rng.randint(1, 25))
    ll, mag, ok = exact_ll(M, Z, obs)
    j = i + int(rng.choice([1, 2, 5]))
    # how far the estimates stay regular, seen one iteration at a time
    kf = ctx.call("construct", cls, M.make, cls)
    for far in range(j):
        c = [np.linalg.eigvalsh(0.5 * (x + x.T)) for x in (kf.transition_covariance, kf.observation_covariance,
                                                           kf.initial_state_covariance)]
        if not ok or any(not w[0] > 1e-3 * w[-1] for w in c) or np.abs(kf.transition_matrices).max() > 5:
            ctx.saw("stopped:degenerate")
            j = far - 1
            break
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=1, em_vars=ev)
    for k in (min(i, j - 1), j):
        if k < 1 or not ok:
            continue
        kf = ctx.call("construct", cls, M.make, cls)
        ctx.call("em", cls + ".em", kf.em, Z, n_iter=k, em_vars=ev)
        M2 = em.params_of(kf, M)
        for key in ("Q", "R", "P0"):
            c = M2.p[key]
            s = np.abs(c).max()
            ctx.check(np.isfinite(c).all() and np.abs(c - c.T).max() <= 1e-7 * s and
                      np.linalg.eigvalsh(c).min() >= -1e-7 * s, "em-cov/oneshot",
                      "%s.em(n_iter=%d): %s is symmetric positive semi-definite" % (cls, k, key),
                      model=M.describe(), Z=Z, em_vars=str(ev), value=c)
        l2, mag2, ok = exact_ll(M2, Z, obs)
        if ok:
            ctx.check(l2 >= ll - 1e-8 * max(mag, mag2, 1.0), "em-monotone",
                      "%s.em(%s): log-likelihood fell from %.12g to %.12g after %d iterations in one call" % (
                          cls, ev, ll, l2, k), model=M.describe(), Z=Z, em_vars=str(ev))
            ll, mag = l2, mag2
            ctx.saw("oneshot")
    ctx.sig("oneshot", cls, n, m, i, "".join(sorted(keys)), mk)


KINDS = {"oneshot": oneshot, "climb": climb, "converge": converge, "patient": patient, "robot": robot}
PLAN = {"quick": {"oneshot": 250, "climb": 1600, "converge": 48, "patient": 32, "robot": 8},
        "thorough": {"oneshot": 6000, "climb": 20000, "converge": 600, "patient": 480, "robot": 160}}
REQUIRED = (["climb:" + c for c in models.LINEAR] + ["patient:" + c for c in models.LINEAR] +
            ["oneshot", "steps", "improved", "long_steps", "robot:KalmanFilter"])
ASSUMPTIONS = ["a fixed time-varying noise covariance is combined only with parameters whose documented "
               "estimate does not ignore it", "iterations are followed until a covariance becomes "
               "numerically singular (the likelihood is then unbounded)"]
