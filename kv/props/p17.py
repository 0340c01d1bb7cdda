"""P17: calls are pure - no hidden state, no mutation, thread-independent."""

import copy
import os
import random
import sys
import threading
import time

import numpy as np

from .. import lincommon as lc, models, nlcommon as nl
from ..core import REPO

LIB = os.path.join(REPO, "pykalman") + os.sep

RULE = ("histories of operations on shared filters with every argument, parameter array, attribute and the "
        "global generator snapshotted around each call, results overwritten in place and the calls "
        "repeated; threads run the same histories with forced switches inside user functions and between lines of the library; distinct by "
        "class, history and schedule; thread switches inside library calls are counted")


def snap(x):
    """Exact image of a value (bytes, mask, identity for functions)."""
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", snap(np.ma.getdata(x)), np.ma.getmaskarray(x).tobytes(), x.mask is np.ma.nomask)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("obj", tuple(id(v) for v in x.ravel()), x.shape)
        return ("nd", x.tobytes(), x.shape, str(x.dtype))
    if isinstance(x, np.random.RandomState):
        s = x.get_state()
        return ("rs", s[1].tobytes(), s[2:])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(str, x))))
    if isinstance(x, dict):
        return ("dict", tuple((k, snap(v)) for k, v in sorted(x.items())))
    if callable(x):
        return ("fn", id(x))
    return ("val", repr(x))


PUBLIC = list(models.PARAMS) + ["n_dim_state", "n_dim_obs", "random_state", "em_vars",
                                "transition_functions", "observation_functions"]


def attrs(kf):
    return {k: snap(getattr(kf, k)) for k in PUBLIC if hasattr(kf, k)}


class Job:
    """A model, the arrays handed to the filter, and the operations that make sense on it."""

    def __init__(self, ctx, rng, switch=None):
        self.cls = cls = str(rng.choice(models.LINEAR + nl.UNSC))
        self.linear = cls in models.LINEAR
        if self.linear:
            while True:
                M = models.lin(rng, T=int(rng.choice([1, 2, 4, 7])), tv_ok=lc.TV[cls])
                self.Z, self.obs, self.mk = models.observations(rng, M)
                r = lc.Ref(M, self.Z, self.obs)
                if max(r.Sc, r.cond_P) < lc.COND_MAX:
                    break
            kw = M.kw()
        else:
            while True:
                M = nl.NL(rng, cls != "UKF", T=int(rng.choice([1, 2, 4, 7])))
                self.Z, self.obs, self.mk = M.observations(rng)
                r = M.reference(self.Z, self.obs)
                if r is not None:
                    break
            M.switch = switch
            if rng.rand() < 0.2:
                old, M.mu0 = M.mu0, np.zeros(M.n)
                r2 = M.reference(self.Z, self.obs)
                if r2 is None:
                    M.mu0 = old
                else:
                    r = r2
            F, G = M.funcs(rng)
            kw = dict(transition_functions=F, observation_functions=G, transition_covariance=M.Q.copy(),
                      observation_covariance=M.R.copy(), initial_state_mean=M.mu0.copy(),
                      initial_state_covariance=M.P0.copy())
            self.fm, self.fc = r[0], r[1]
        if self.linear:
            self.fm, self.fc = r.fm, r.fc
        if rng.rand() < 0.35:
            self._other_forms(rng, kw, M)
        if rng.rand() < 0.3:
            kw["random_state"] = int(rng.randint(1 << 30))
        if self.linear and rng.rand() < 0.4:
            kw["em_vars"] = [["transition_covariance", "initial_state_mean"],
                             {"observation_offsets"}][rng.randint(2)]
        self.M, self.kw, self.T = M, kw, M.T
        self.key = (cls, M.signature(), self.mk)

    def _other_forms(self, rng, kw, M):
        """Parameters as lists, or left out where the value is the default anyway."""
        for k, v in list(kw.items()):
            if not isinstance(v, np.ndarray) or v.dtype == object:
                continue
            base = 1 if k.endswith(("mean", "offsets")) else 2
            dflt = np.zeros(v.shape) if base == 1 else np.eye(*v.shape[-2:])
            if v.ndim == base and np.array_equal(v, dflt):
                if rng.rand() < 0.6:
                    del kw[k]
            elif rng.rand() < 0.4:
                kw[k] = v.tolist()
        kw.update(n_dim_state=M.n, n_dim_obs=M.m)

    def make(self):
        return models.cls_of(self.cls)(**self.kw)

    def ops(self, rng):
        """(name, args, kwargs) of one operation with fresh arguments."""
        M = self.M
        k = rng.randint(6 if self.linear else 5)
        while self.T == 1 and k in (3, 4):
            k = rng.randint(6 if self.linear else 5)
        if k == 0:
            return "filter", (self.zarg(rng),), {}
        if k == 1:
            return "smooth", (self.zarg(rng),), {}
        if k == 2:
            kw = {"random_state": int(rng.randint(1 << 30))}
            if rng.rand() < 0.5:
                kw["initial_state"] = rng.randn(M.n)
            return "sample", (self.T,), kw
        if k == 5:
            return "loglikelihood", (self.zarg(rng),), {}
        t = int(rng.randint(self.T - 1))
        kw = {}
        if self.linear:
            for key, a in (("A", "transition_matrix"), ("b", "transition_offset"),
                           ("Q", "transition_covariance"), ("C", "observation_matrix"),
                           ("d", "observation_offset"), ("R", "observation_covariance")):
                if key in M.tv or rng.rand() < 0.3:
                    kw[a] = M.at(key, t if key in "AbQ" else t + 1).copy()
        elif M.tv or rng.rand() < 0.3:
            kw = dict(transition_function=M.lib_f(t), observation_function=M.lib_g(t + 1))
        if not self.linear:
            for key, a in (("Q", "transition_covariance"), ("R", "observation_covariance")):
                if rng.rand() < 0.3:
                    kw[a] = getattr(M, key).copy()
        row = np.ma.asarray(self.Z)[t + 1]
        o = None if rng.rand() < 0.2 else row.copy()
        return "filter_update", (self.fm[t].copy(), self.fc[t].copy(), o), kw

    def zarg(self, rng):
        z = np.ma.array(np.ma.getdata(self.Z).copy(), mask=np.ma.getmaskarray(self.Z).copy())
        if self.T == 1 and rng.rand() < 0.5:
            z[...] = np.ma.masked
            return z
        if not z.mask.any() and rng.rand() < 0.5:
            return z.data
        return z


def arrays(res):
    if isinstance(res, tuple):
        return [np.array(np.ma.getdata(x), float) for x in res]
    return [np.array(res, float)]


def same(ctx, a, b, mech, what, **det):
    a, b = arrays(a), arrays(b)
    ctx.check(len(a) == len(b), mech, what)
    for x, y in zip(a, b):
        ctx.close(x, y, max(np.abs(y).max(), 1e-300) if y.size else 1.0, mech, what, 1e-9, **det)


def spoil(res):
    """Overwrite every returned array in place."""
    for x in res if isinstance(res, tuple) else (res,):
        if isinstance(x, np.ndarray) and x.ndim and x.flags.writeable:
            np.ma.getdata(x)[...] = np.nan


def history(ctx, rng):
    jobs = [Job(ctx, rng) for _ in range(int(rng.randint(1, 4)))]
    kfs = [ctx.call("construct", j.cls, j.make) for j in jobs]
    done = []
    trace = []
    held = []

    def still(after):
        for w, r, before in held:
            ctx.check(snap(r) == before, "aliases/earlier-result", "what %s returned was changed by a later call of %s" % (
                w, after), history=list(trace))
            ctx.saw("held")

    for step in range(int(rng.randint(4, 12))):
        i = int(rng.randint(len(jobs)))
        j, kf = jobs[i], kfs[i]
        if done and rng.rand() < 0.4:
            # repeat an earlier call, exactly
            i, name, args, kw, want = done[rng.randint(len(done))]
            j, kf = jobs[i], kfs[i]
            args, kw = copy.deepcopy(args), {k: (v if callable(v) else copy.deepcopy(v)) for k, v in kw.items()}
            ctx.saw("repeated")
        else:
            name, args, kw = j.ops(rng)
            want = None
        a0, k0, p0, f0 = snap(args), snap(kw), snap(j.kw), [attrs(k) for k in kfs]
        g0 = snap(np.random.mtrand._rand)
        keep = (copy.deepcopy(args), {k: (v if callable(v) else copy.deepcopy(v)) for k, v in kw.items()})
        res = ctx.call("call", "%s.%s" % (j.cls, name), getattr(kf, name), *args, **kw)
        what = "%s.%s" % (j.cls, name)
        det = dict(history=list(trace))
        ctx.check(snap(args) == a0 and snap(kw) == k0, "mutates/argument", what + " changed one of its arguments", **det)
        ctx.check(snap(j.kw) == p0, "mutates/parameter-array", what + " changed an array given to the constructor", **det)
        for q, (k, before) in enumerate(zip(kfs, f0)):
            after = attrs(k)
            ch = [x for x in before if before[x] != after.get(x)]
            ctx.check(not ch, "mutates/filter", "%s changed %s of %s filter" % (what, ch, "its own" if q == i else "another"), **det)
        ctx.check(snap(np.random.mtrand._rand) == g0, "mutates/global-rng", what + " changed the global generator", **det)
        ctx.saw("snapshots")
        still(what)
        hold = rng.rand() < 0.6
        if hold:
            held.append((what, res, snap(res)))
        if want is not None:
            same(ctx, res, want, "history", what + " repeated after other calls", **det)
        else:
            fresh = ctx.call("call", what, getattr(j.make(), name), *keep[0], **keep[1])
            same(ctx, res, fresh, "history", what + " vs the same call on a fresh filter", **det)
            want = tuple(arrays(res)) if isinstance(res, tuple) else arrays(res)[0]
            done.append((i, name) + keep + (want,))
        still("the same on a fresh filter")
        # the results are the caller's
        if hold:
            res = ctx.call("call", what, getattr(kf, name), *copy.deepcopy(keep[0]), **keep[1])
            still("the same again")
        spoil(res)
        still(what + ", whose result was overwritten,")
        if isinstance(args[0], np.ndarray):
            ctx.check(snap(args) == a0, "aliases/argument", what + " returned (part of) its argument", **det)
        ctx.check(snap(kw) == k0, "aliases/argument", what + " returned (part of) its argument", **det)
        ctx.check(snap(j.kw) == p0, "aliases/parameter", what + " returned (part of) a parameter array", **det)
        ctx.check([attrs(k) for k in kfs] == f0, "aliases/filter", what + " returned (part of) the filter's parameters", **det)
        again = ctx.call("call", what, getattr(kf, name), *copy.deepcopy(keep[0]), **keep[1])
        same(ctx, again, want, "aliases/result", what + " repeated after its result was overwritten", **det)
        spoil(again)
        trace.append("%d:%s" % (i, name))
        ctx.saw("op:%s:%s" % (j.cls, name))
    ctx.sig(*[j.cls for j in jobs], *trace)


def em(ctx, rng):
    """em changes only its own filter; the arrays it was given stay as they were."""
    while True:
        j = Job(ctx, rng)
        if j.linear and j.obs.any() and j.T > 1:
            break
    a, b = ctx.call("construct", j.cls, j.make), ctx.call("construct", j.cls, j.make)
    Z = j.zarg(rng)
    p0, z0, b0, g0 = snap(j.kw), snap(Z), attrs(b), snap(np.random.mtrand._rand)
    f0 = ctx.call("filter", j.cls, b.filter, Z)
    s0 = ctx.call("smooth", j.cls, a.smooth, Z)
    r0 = snap((f0, s0))
    ev = ["transition_covariance", "observation_covariance", "initial_state_mean"]
    e0 = snap(ev)
    ctx.call("em", j.cls + ".em", a.em, Z, n_iter=1, em_vars=ev)
    ctx.check(snap(j.kw) == p0, "mutates/parameter-array", j.cls + ".em changed an array given to the constructor")
    ctx.check(snap(Z) == z0 and snap(ev) == e0, "mutates/argument", j.cls + ".em changed an argument")
    ctx.check(attrs(b) == b0, "mutates/filter", j.cls + ".em changed another filter built from the same arrays")
    ctx.check(snap(np.random.mtrand._rand) == g0, "mutates/global-rng", j.cls + ".em changed the global generator")
    ctx.check(snap((f0, s0)) == r0, "aliases/earlier-result", j.cls + ".em changed what filter or smooth returned before")
    same(ctx, ctx.call("filter", j.cls, b.filter, Z), f0, "history", j.cls + ".filter of another filter after em")
    # what em stored is not a view of the data or of the caller's arrays
    params = {k: np.array(getattr(a, k), float) for k in models.PARAMS}
    for v in j.kw.values():
        if isinstance(v, np.ndarray) and v.dtype != object:
            v[...] = v * 1.0
    np.ma.getdata(Z)[...] = 0.0
    for k in ev:
        ctx.check(np.array_equal(getattr(a, k), params[k], equal_nan=True), "aliases/em",
                  "%s.em stored a view of the data in %s" % (j.cls, k))
    ctx.saw("em:" + j.cls)
    ctx.sig("em", *j.key)


def threads(ctx, rng):
    """Several threads, shared and separate filters, forced switches."""
    stats = {"switches": 0, "last": None, "lines": 0}

    def switch():
        me = threading.get_ident()
        if stats["last"] is not None and stats["last"] != me:
            stats["switches"] += 1
        stats["last"] = me
        time.sleep(0)

    nj = int(rng.randint(1, 4))
    jobs = [Job(ctx, rng, switch) for _ in range(nj)]
    kfs = [ctx.call("construct", j.cls, j.make) for j in jobs]
    nt = int(rng.randint(2, 6))
    plans = []
    for _ in range(nt):
        plan = []
        for _ in range(int(rng.randint(3, 8))):
            i = int(rng.randint(nj))
            plan.append((i,) + jobs[i].ops(rng))
        plans.append(plan)
    want = []
    for plan in plans:
        w = []
        for i, name, args, kw in plan:
            r = ctx.call("call", jobs[i].cls + "." + name, getattr(jobs[i].make(), name), *copy.deepcopy(args), **kw)
            w.append(tuple(arrays(r)) if isinstance(r, tuple) else arrays(r)[0])
        want.append(w)
    got = [[None] * len(p) for p in plans]
    errs = []
    bar = threading.Barrier(nt)

    # switches between any two lines of the library, at random
    rate = float(rng.choice([0.0, 0.02, 0.1, 0.4]))
    seeds = [int(v) for v in rng.randint(1 << 30, size=nt)]

    def run(q):
        bar.wait()
        if rate:
            draw = random.Random(seeds[q]).random

            def local(frame, event, arg):
                if event == "line" and draw() < rate:
                    stats["lines"] += 1
                    me = threading.get_ident()
                    if stats["last"] != me:
                        stats["switches"] += 1
                    stats["last"] = me
                    time.sleep(2e-6 if draw() < 0.9 else 2e-4)
                return local

            sys.settrace(lambda frame, event, arg: local if frame.f_code.co_filename.startswith(LIB) else None)
        try:
            for s, (i, name, args, kw) in enumerate(plans[q]):
                # the arguments are shared between threads too
                r = getattr(kfs[i], name)(*args, **kw)
                got[q][s] = tuple(arrays(r)) if isinstance(r, tuple) else arrays(r)[0]
                switch()
        except Exception as e:  # noqa: BLE001
            errs.append((q, name, e))
        finally:
            sys.settrace(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=run, args=(q,)) for q in range(nt)]
        [t.start() for t in ts]
        [t.join(120) for t in ts]
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        ctx.violation("threads/hang", "threads did not finish")
    if errs:
        ctx.violation("threads/raised", "%s raised %r in a concurrent thread only" % (errs[0][1], errs[0][2]))
    for q, plan in enumerate(plans):
        for s, (i, name, args, kw) in enumerate(plan):
            same(ctx, got[q][s], want[q][s], "threads", "%s.%s in thread %d of %d vs alone" % (jobs[i].cls, name, q, nt))
            ctx.saw("concurrent:" + jobs[i].cls)
    ctx.saw("thread_switches_seen", stats["switches"])
    ctx.saw("line_delays", stats["lines"])
    ctx.sig("threads", nt, *[j.cls for j in jobs], *["".join(x[1][0] for x in p) for p in plans])


def nudge(rng, v, cov):
    """Change one component of an array in place, most of its entries staying what they were."""
    d = np.ma.getdata(v)
    if cov:
        i, g = rng.randint(d.shape[-1]), rng.choice([0.5, 2.0, -1.0, 1 + 1e-6])
        if d.ndim == 3 and rng.rand() < 0.6:
            d = d[rng.randint(len(d))][None]
        d[..., i, :] *= g
        d[..., :, i] *= g
        return "scaled"
    k = rng.randint(4)
    i = np.unravel_index(int(rng.randint(d.size)) if rng.rand() < 0.6 else d.size - 1, d.shape)
    if k == 0 and len(d) > 1:
        d[[0, -1]] = d[[-1, 0]]
        return "swapped"
    if k == 1 and isinstance(v, np.ma.MaskedArray) and v.mask is not np.ma.nomask:
        v.mask[i] = not v.mask[i]
        return "mask"
    if k == 2:
        d[i] = -d[i] if d[i] else 1.0
        return "negated"
    d[i] += rng.choice([1e-5, 0.3]) * (np.abs(d).max() or 1.0)
    return "shifted"


def variants(ctx, rng):
    """The same arrays, changed a little between calls - in place or in a copy, arguments or parameters."""
    j = Job(ctx, rng)
    kf = ctx.call("construct", j.cls, j.make)
    name, args, kw = j.ops(rng)
    trace, made = [], []
    for step in range(int(rng.randint(3, 8))):
        how = "again"
        u = rng.rand()
        if u < 0.15:
            name, args, kw = j.ops(rng)
            how = "new"
        elif step and u < 0.65:
            # an argument: the caller's buffer changed, or another array that differs in one place
            arrs = [("%d" % i, v, name == "filter_update" and i == 1) for i, v in enumerate(args)
                    if isinstance(v, np.ndarray)]
            arrs += [(k, v, "covariance" in k) for k, v in kw.items() if isinstance(v, np.ndarray)]
            if arrs:
                if rng.rand() < 0.4:
                    args = tuple(copy.deepcopy(v) for v in args)
                    kw = {k: (v if callable(v) else copy.deepcopy(v)) for k, v in kw.items()}
                    arrs = [("%d" % i, v, name == "filter_update" and i == 1) for i, v in enumerate(args)
                            if isinstance(v, np.ndarray)]
                    arrs += [(k, v, "covariance" in k) for k, v in kw.items() if isinstance(v, np.ndarray)]
                    how = "copied "
                else:
                    how = "reused "
                w, v, cov = arrs[rng.randint(len(arrs))]
                how += "argument %s %s" % (w, nudge(rng, v, cov))
                ctx.saw("argument_changed")
        elif step:
            # a parameter of the filter: its array changed in place, or replaced by a similar one
            ps = [k for k in PUBLIC if isinstance(getattr(kf, k, None), np.ndarray)
                  and getattr(kf, k).dtype.kind == "f"]
            fs = [k for k in ("transition_functions", "observation_functions")
                  if isinstance(getattr(kf, k, None), (list, np.ndarray)) and len(getattr(kf, k)) > 1]
            if fs and rng.rand() < 0.4:
                k = fs[rng.randint(len(fs))]
                v = getattr(kf, k)
                v[0], v[1] = v[1], v[0]
                how = "swapped " + k
                ctx.saw("parameter_changed")
            elif ps:
                k = ps[rng.randint(len(ps))]
                how = "in place "
                if rng.rand() < 0.4:
                    setattr(kf, k, getattr(kf, k).copy())
                    how = "assigned "
                how += "%s %s" % (k, nudge(rng, getattr(kf, k), "covariance" in k))
                ctx.saw("parameter_changed")
        trace.append("%s %s" % (how, name))
        now = {k: (lambda v: v if callable(v) else copy.copy(v) if "functions" in k else copy.deepcopy(v))(getattr(kf, k))
               for k in PUBLIC if hasattr(kf, k)}
        keep = copy.deepcopy(args), {k: (v if callable(v) else copy.deepcopy(v)) for k, v in kw.items()}
        # nothing else runs in between: a new filter would disturb what may be remembered
        try:
            got = getattr(kf, name)(*args, **kw)
            got = tuple(arrays(got)) if isinstance(got, tuple) else arrays(got)[0]
        except Exception as e:  # noqa: BLE001
            got = e
        made.append((name, now, keep, got, len(trace)))
    for name, now, keep, got, k in made:
        try:
            want = getattr(models.cls_of(j.cls)(**now), name)(*keep[0], **keep[1])
            ok = all(np.isfinite(x).all() and np.abs(x).max(initial=0) < 1e12 * max(1.0, getattr(j.M, "sx", 1), j.M.sz)**2
                     for x in arrays(want))
        except (np.linalg.LinAlgError, ValueError):
            ok = False
        if not ok:
            # no valid model any more
            ctx.saw("variants_invalid")
            break
        what = "%s.%s of a used filter vs a new one with its current parameters and the same arguments" % (j.cls, name)
        ctx.check(not isinstance(got, Exception), "variants", "%s: raised %r" % (what, got), history=trace[:k])
        same(ctx, got, want, "variants", what, history=trace[:k])
        ctx.saw("variants:" + j.cls)
    ctx.sig("variants", j.cls, *trace)


KINDS = {"history": history, "variants": variants, "em": em, "threads": threads}
PLAN = {"quick": {"history": 1200, "variants": 1500, "em": 500, "threads": 300},
        "thorough": {"history": 15000, "variants": 20000, "em": 6000, "threads": 4000}}
REQUIRED = (["op:%s:%s" % (c, o) for c in models.LINEAR + nl.UNSC for o in ("filter", "smooth", "sample", "filter_update")]
            + ["op:%s:loglikelihood" % c for c in models.LINEAR] + ["em:" + c for c in models.LINEAR]
            + ["concurrent:" + c for c in models.LINEAR + nl.UNSC] + ["variants:" + c for c in models.LINEAR + nl.UNSC] + ["argument_changed", "parameter_changed"]
            + ["repeated", "thread_switches_seen", "line_delays"])
ASSUMPTIONS = ["only public attributes count as the filter's state; a private cache is judged by its effects",
               "interleavings are sampled (switch interval 1 microsecond, yields inside user functions)"]
