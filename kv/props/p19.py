"""P19: the bundled robot data are consistent and never shared."""

import copy

import numpy as np

from .. import models

RULE = ("loads of the dataset in random histories of loading, modifying and using it; every stored "
        "estimate recomputed by every linear filter, whole and in windows; distinct by class, window, "
        "operation and modification")

DIMS = {"observations": (501, 2), "states": (500, 5), "transition_matrix": (5, 5),
        "transition_offsets": (500, 5), "observation_matrix": (2, 5), "observation_offset": (2,),
        "initial_transition_covariance": (5, 5), "initial_observation_covariance": (2, 2),
        "transition_covariance": (5, 5), "observation_covariance": (2, 2),
        "initial_state_mean": (5,), "initial_state_covariance": (5, 5),
        "filtered_state_means": (501, 5), "filtered_state_covariances": (501, 5, 5),
        "smoothed_state_means": (501, 5), "smoothed_state_covariances": (501, 5, 5),
        "loglikelihoods": (50,)}


def load(ctx):
    from pykalman.datasets import load_robot
    return ctx.call("load", "load_robot", load_robot)


def digest(d):
    """Every value of every field, as bytes."""
    out = {}
    for k in sorted(d.keys()):
        v = d[k]
        if isinstance(v, np.ndarray):
            out[k] = (str(np.ma.getdata(v).dtype), v.shape, np.ma.getdata(v).tobytes(),
                      np.ma.getmaskarray(v).tobytes() if isinstance(v, np.ma.MaskedArray) else b"")
        else:
            out[k] = repr(v)
    return out


def kf_of(ctx, cls, d, initial=False, **over):
    kw = dict(transition_matrices=d.transition_matrix, observation_matrices=d.observation_matrix,
              transition_covariance=d.initial_transition_covariance if initial else d.transition_covariance,
              observation_covariance=d.initial_observation_covariance if initial else d.observation_covariance,
              transition_offsets=d.transition_offsets, observation_offsets=d.observation_offset,
              initial_state_mean=d.initial_state_mean, initial_state_covariance=d.initial_state_covariance)
    kw.update(over)
    return ctx.call("construct", cls, models.cls_of(cls), **kw)


def window(d, rng):
    """A random stretch (t0, T) of the sequence."""
    T = int(rng.choice([501, 501, 2, 40, 150]))
    t0 = 0 if T == 501 or rng.rand() < 0.4 else int(rng.randint(1, 502 - T))
    return t0, T


def agree(ctx, got, ref, mech, what, tol=1e-9):
    m, c = got
    ctx.close(np.ma.getdata(m), ref[0], np.abs(ref[0]).max(), mech + "-mean", what + " means", tol)
    ctx.close(np.ma.getdata(c), ref[1], np.abs(ref[1]).max(), mech + "-cov", what + " covariances", tol)


def estimates(ctx, rng):
    """Filter, smoother or the chain of updates from a stored estimate reproduce the stored estimates."""
    d = load(ctx)
    cls = str(rng.choice(models.LINEAR))
    t0, T = window(d, rng)
    op = str(rng.choice(["filter", "smooth", "update"]))
    s = slice(t0, t0 + T)
    if op == "update":
        kf = kf_of(ctx, cls, d)
        m, c = d.filtered_state_means[t0], d.filtered_state_covariances[t0]
        ms, cs = [m], [c]
        for t in range(t0 + 1, t0 + T):
            m, c = ctx.call("update", cls + ".filter_update", kf.filter_update, m, c, d.observations[t],
                            transition_offset=d.transition_offsets[t - 1])
            ms.append(np.ma.getdata(m))
            cs.append(c)
        agree(ctx, (np.array(ms), np.array(cs)),
              (d.filtered_state_means[s], d.filtered_state_covariances[s]), "filtered",
              "%s updates over %d..%d: the stored filtered" % (cls, t0, t0 + T))
    elif op == "filter":
        # a prefix of the sequence
        kf = kf_of(ctx, cls, d, transition_offsets=d.transition_offsets[:T - 1])
        got = ctx.call("filter", cls + ".filter", kf.filter, d.observations[:T])
        agree(ctx, got, (d.filtered_state_means[:T], d.filtered_state_covariances[:T]), "filtered",
              "%s.filter of the first %d rows: the stored filtered" % (cls, T))
        t0 = 0
    else:
        # a suffix, started from the stored filtered estimate with its row not counted twice
        t0 = int(rng.choice([0, 0, 100, 300, 460]))
        over, Z = {}, d.observations
        if t0:
            Z = d.observations[t0:].copy()
            Z[0] = np.ma.masked
            over = dict(transition_offsets=d.transition_offsets[t0:], initial_state_mean=d.filtered_state_means[t0],
                        initial_state_covariance=d.filtered_state_covariances[t0])
        kf = kf_of(ctx, cls, d, **over)
        got = ctx.call("smooth", cls + ".smooth", kf.smooth, Z)
        agree(ctx, got, (d.smoothed_state_means[t0:], d.smoothed_state_covariances[t0:]), "smoothed",
              "%s.smooth from row %d: the stored smoothed" % (cls, t0), 1e-8)
        T = 501 - t0
    ctx.saw("%s:%s" % (op, cls))
    ctx.sig(op, cls, t0, T)


def learning(ctx, rng):
    """EM from the stored starting covariances passes through the stored log-likelihoods."""
    d = load(ctx)
    cls = str(rng.choice(models.LINEAR))
    k = 50 if rng.rand() < 0.15 or ctx.tier == "thorough" else int(rng.choice([4, 8, 12]))
    ev = ["transition_covariance", "observation_covariance"]
    kf = kf_of(ctx, cls, d, initial=True, em_vars=ev)
    for i in range(k):
        ll = float(ctx.call("loglik", cls + ".loglikelihood", kf.loglikelihood, d.observations))
        ctx.close(ll, float(d.loglikelihoods[i]), abs(float(d.loglikelihoods[i])), "trace",
                  "%s: log-likelihood after %d EM iterations" % (cls, i), 1e-9)
        ctx.call("em", cls + ".em", kf.em, d.observations, n_iter=1)
        ctx.saw("iterations")
    if k == 50:
        # the published covariances are the end of that run
        for a in ev:
            ctx.close(getattr(kf, a), getattr(d, a), np.abs(getattr(d, a)).max(), "published",
                      "%s: %s after 50 EM iterations" % (cls, a), 1e-8)
        ctx.saw("full_trace")
    ctx.saw("learning:" + cls)
    ctx.sig("learning", cls, k)


def meaning(ctx, rng):
    """Dimensions, mask, and the model relating states and observations."""
    d = load(ctx)
    for k, shp in DIMS.items():
        ctx.check(k in d.keys() and hasattr(d, k), "fields", "the dataset lacks " + k)
        ctx.check(d[k] is getattr(d, k) or np.array_equal(d[k], getattr(d, k)), "fields",
                  k + " differs between item and attribute")
        ctx.shape(d[k], shp, "fields", k)
        ctx.check(np.isfinite(np.ma.filled(np.ma.asarray(d[k], float), 0.0)).all(), "finite", k + " has non-finite values")
    ctx.check(int(d.n_timesteps) == 501, "fields", "n_timesteps = %r" % (d.n_timesteps,))
    ctx.check(isinstance(d.DESCR, str) and len(d.DESCR) > 20, "fields", "no description")
    msk = np.ma.getmaskarray(d.observations)
    ctx.check(msk[0].all() and not msk[1:].any(), "mask", "the first row, and only it, is missing")
    for k in ("initial_transition_covariance", "initial_observation_covariance", "transition_covariance",
              "observation_covariance", "initial_state_covariance"):
        c = np.array(d[k], float)
        ctx.close(c, c.T, np.abs(c).max(), "covariances", k + " symmetric", 1e-8)
        ctx.check(np.linalg.eigvalsh(c).min() > 0, "covariances", k + " not positive definite")
    for k in ("filtered_state_covariances", "smoothed_state_covariances"):
        w = np.linalg.eigvalsh(0.5 * (d[k] + d[k].transpose(0, 2, 1)))
        ctx.check((w[:, 0] > 0).all(), "covariances", k + " not positive definite")
    ctx.close(d.smoothed_state_means[-1], d.filtered_state_means[-1], np.abs(d.filtered_state_means[-1]).max(),
              "ends", "last smoothed estimate equals the last filtered one", 1e-8)
    ctx.check((np.diff(np.array(d.loglikelihoods, float)) > 0).all(), "increasing", "stored log-likelihoods increase")
    # states follow the transition model, observations the observation model, up to noise of the
    # published covariance
    A, b, C, e = d.transition_matrix, d.transition_offsets, d.observation_matrix, d.observation_offset
    st = np.array(d.states, float)
    r = d.observations[1:] - d.smoothed_state_means[1:].dot(C.T) - e
    sd = np.sqrt(np.diag(d.observation_covariance))
    ctx.check((np.abs(np.ma.getdata(r)) < 8 * sd).all(), "model", "observations far from the smoothed states")
    q = d.smoothed_state_means[1:] - d.smoothed_state_means[:-1].dot(A.T) - b
    ctx.check((np.abs(q) < 8 * np.sqrt(np.diag(d.transition_covariance))).all(), "model",
              "smoothed states do not follow the transition model")
    del st
    ctx.saw("meaning")
    ctx.sig("meaning")


def vandalise(ctx, rng, d, k):
    """Change one field of a loaded dataset in place; returns how."""
    v = d[k]
    how = str(rng.choice(["fill", "item", "iadd", "mask", "del", "replace", "sort"]))
    if not isinstance(v, np.ndarray):
        how = "replace"
    try:
        if how == "fill":
            v.fill(7)
        elif how == "item":
            v[(0,) * v.ndim] = 99
        elif how == "iadd":
            v += np.ones(1, v.dtype)
        elif how == "mask" and isinstance(v, np.ma.MaskedArray):
            v[...] = np.ma.masked
        elif how == "del":
            del d[k]
        elif how == "replace":
            d[k] = None
        elif how == "sort":
            v.sort(axis=0)
        else:
            how = "none"
    except (ValueError, TypeError):                  # read-only or unsupported: nothing changed
        how = "refused"
    ctx.saw("modified:" + how)
    return how


def independence(ctx, rng):
    """Random histories of loading, modifying and using; a new load is always pristine."""
    first = load(ctx)
    ref = digest(first)
    held = [(first, True)]
    for _ in range(int(rng.randint(2, 7))):
        act = str(rng.choice(["load", "vandalise", "use", "keep"]))
        if act == "load":
            held.append((load(ctx), True))
        elif act == "vandalise":
            i = int(rng.randint(len(held)))
            d = held[i][0]
            n = len(d.keys()) if rng.rand() < 0.3 else int(rng.randint(1, 4))
            how = [vandalise(ctx, rng, d, k) for k in rng.permutation(sorted(d.keys()))[:n]]
            held[i] = (d, False)
            ctx.sig("vandalise", how[0], len(how), i)
        elif act == "use":
            d = load(ctx)
            cls = str(rng.choice(models.LINEAR))
            kf = kf_of(ctx, cls, d, initial=True, transition_offsets=d.transition_offsets[:19])
            ctx.call("em", cls + ".em", kf.em, d.observations[:20], n_iter=2,
                     em_vars=["transition_covariance", "observation_covariance", "initial_state_mean",
                              "initial_state_covariance"])
            ctx.call("smooth", cls + ".smooth", kf.smooth, d.observations[:20])
            ctx.check(digest(d) == ref, "unchanged", "using the dataset in a %s changed it" % cls)
            held.append((d, True))
            ctx.saw("used:" + cls)
        else:
            c = copy.deepcopy(load(ctx))
            ctx.check(digest(c) == ref, "copy", "a deep copy differs from the dataset")
        new = digest(load(ctx))
        for k in ref:
            ctx.check(new.get(k) == ref[k], "pristine", "a new load has a different %s after %s" % (k, act))
        ctx.check(set(new) == set(ref), "pristine", "a new load has different fields")
        for d, clean in held:
            if clean:
                ctx.check(digest(d) == ref, "shared", "an earlier load changed after %s of another one" % act)
        ctx.saw("history")
    for i in range(len(held)):
        for j in range(i):
            a, b = held[i][0], held[j][0]
            for k in set(a.keys()) & set(b.keys()):
                if isinstance(a[k], np.ndarray) and isinstance(b[k], np.ndarray) and a is not b:
                    ctx.check(not np.shares_memory(np.ma.getdata(a[k]), np.ma.getdata(b[k])), "shared",
                              "two loads share the memory of " + k)


KINDS = {"estimates": estimates, "learning": learning, "meaning": meaning, "independence": independence}
PLAN = {"quick": {"estimates": 96, "learning": 18, "meaning": 2, "independence": 160},
        "thorough": {"estimates": 1500, "learning": 90, "meaning": 20, "independence": 4000}}
REQUIRED = (["%s:%s" % (o, c) for o in ("filter", "smooth", "update", "learning", "used") for c in models.LINEAR] +
            ["meaning", "history"])
ASSUMPTIONS = ["the stored values (computed by another implementation) are the reference"]
