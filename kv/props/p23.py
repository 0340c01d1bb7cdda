"""P23: a call that fails leaves no trace."""

import sys
import threading
import warnings

import numpy as np

from .. import core, emcommon as em, lincommon as lc, models, nlcommon as nl
from . import p17

RULE = ("operations of all six classes made to fail - at the entry of a random function called beneath the "
        "operation (injected with a trace function), inside a user function at a random call, or by a "
        "malformed argument - with parameters, arguments, global generator, NumPy error settings and warning "
        "filters compared before and after and every later operation compared with a twin that never failed; "
        "distinct by class, operation, kind of fault, exception type and depth bucket")


class Fault(Exception):
    pass


class UserValueError(ValueError):
    pass


class UserTypeError(TypeError):
    pass


class UserIndexError(IndexError):
    pass


class UserAttributeError(AttributeError):
    pass


class UserLinAlgError(np.linalg.LinAlgError):
    pass


class UserArithmeticError(FloatingPointError):
    pass


class UserInterrupt(KeyboardInterrupt):
    pass


USER = [Fault, UserValueError, UserTypeError, UserIndexError, UserAttributeError, UserLinAlgError,
        UserArithmeticError, UserInterrupt]
# what may be injected beneath the library: nothing that NumPy itself catches
BENEATH = [Fault, UserInterrupt, UserLinAlgError, MemoryError]


SKIP = ("_ufunc_config.py", "contextlib.py", "warnings.py", "threading.py", "weakref.py", "functools.py")


class Tracer:
    """Counts entries of Python functions beneath an operation; raises at the k-th."""

    def __init__(self, k=None, exc=None):
        self.k, self.exc, self.n, self.where = k, exc, 0, None

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if event == "call" and not f.startswith(core.VERIF) and not f.startswith("<"):
            # functions of the library and of NumPy/SciPy called by it
            if frame.f_code.co_name in ("__del__", "__exit__") or f.endswith(SKIP):
                return None  # a fault inside the clean-up itself is not the library's to handle
            self.n += 1
            if self.n == self.k:
                self.where = "%s:%s" % (f.rsplit("/", 1)[-1], frame.f_code.co_name)
                raise self.exc("injected")
        return None

    def run(self, fn, *a, **kw):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return fn(*a, **kw)
        finally:
            sys.settrace(old)


def world():
    """process-wide settings no call may change"""
    st = np.random.get_state()
    return (st[1].tobytes(), st[2:], tuple(sorted(np.geterr().items())), np.geterrcall(),
            tuple(sorted((k, str(v)) for k, v in np.get_printoptions().items())),
            threading.active_count(), sys.getrecursionlimit())


def attempt(fn, *a, **kw):
    """(result, None) or (None, exception); warnings untouched by the harness except printing"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        before = list(warnings.filters)
        try:
            r, e = fn(*a, **kw), None
        except (Exception, KeyboardInterrupt) as x:  # noqa: BLE001
            r, e = None, x
        changed = list(warnings.filters) != before
    return r, e, changed


def battery(ctx, J, kf, calls):
    """results of a fixed list of calls"""
    out = []
    for name, a, kw in calls:
        a = tuple(np.array(x) if type(x) is np.ndarray else x for x in a)
        out.append(ctx.call("later/" + name, "%s.%s" % (J.cls, name), getattr(kf, name), *a, **kw))
    return out


def equal(ctx, a, b, mech, what, **det):
    for x, y in zip(p17.arrays(a), p17.arrays(b)):
        ctx.close(x, y, max(np.abs(y).max(), 1e-300) if y.size else 1.0, mech, what, 1e-12, **det)


def calls_for(J, rng, n=3):
    c = []
    seen = set()
    for _ in range(20):
        name, a, kw = J.ops(rng)
        if name in seen or len(c) >= n:
            continue
        seen.add(name)
        c.append((name, a, kw))
    return c


def judge_failed(ctx, J, kf, op, exc, e, before, pub, args, changed, how, want, **det):
    """after a failed (or completed) call: nothing but the exception is left"""
    cls = J.cls
    ctx.check(world() == before, "world", "%s.%s (%s) changed a process-wide setting or the global generator" % (
        cls, op, how), **det)
    ctx.check(not changed, "world", "%s.%s (%s) changed the warning filters" % (cls, op, how), **det)
    ctx.check(p17.attrs(kf) == pub, "parameters", "%s.%s (%s) changed the filter's parameters" % (cls, op, how), **det)
    ctx.check([p17.snap(x) for x in args[0]] == args[1], "arguments", "%s.%s (%s) changed its arguments" % (
        cls, op, how), **det)


def calls_fault(ctx, rng):
    """a function beneath a non-EM operation fails"""
    J = p17.Job(ctx, rng)
    kf, twin = ctx.call("construct", J.cls, J.make), ctx.call("construct", J.cls, J.make)
    later = calls_for(J, rng)
    ref = battery(ctx, J, twin, later)
    for _ in range(int(rng.randint(1, 4))):
        name, a, kw = J.ops(rng)
        probe = Tracer()
        before = world()
        _, e, changed = attempt(probe.run, getattr(twin, name), *p17_copy(a), **kw)
        ctx.check(world() == before and not changed, "world", "%s.%s changed a process-wide setting" % (J.cls, name))
        if e is not None or probe.n < 2:
            ctx.saw("not_failing")
            continue
        u = rng.rand()
        k = int(rng.randint(1, probe.n + 1)) if u < 0.8 else int(probe.n - rng.randint(0, min(probe.n, 12)))
        exc = BENEATH[rng.randint(len(BENEATH))]
        vals = list(a) + [kw[x] for x in sorted(kw)]
        args = (vals, [p17.snap(x) for x in vals])
        pub, before = p17.attrs(kf), world()
        tr = Tracer(k, exc)
        r, e, changed = attempt(tr.run, getattr(kf, name), *a, **kw)
        how = "%s in call %d of %d, %s" % (exc.__name__, k, probe.n, tr.where)
        det = dict(operation=name, model=J.M.describe())
        if tr.where is None:
            ctx.saw("not_reached")
        elif e is None:
            ctx.saw("absorbed")
        else:
            ctx.saw("failed:" + J.cls)
            ctx.saw("failed:" + name)
            ctx.sig("beneath", J.cls, name, exc.__name__, tr.where)
        judge_failed(ctx, J, kf, name, exc, e, before, pub, args, changed, how, None, **det)
    got = battery(ctx, J, kf, later)
    fresh = battery(ctx, J, ctx.call("construct", J.cls, J.make), later)
    for (name, _, _), x, y, z in zip(later, got, ref, fresh):
        equal(ctx, x, y, "later/" + name, "%s.%s after a failed call" % (J.cls, name), model=J.M.describe())
        equal(ctx, z, y, "fresh/" + name, "%s.%s of a new filter after a failed call of another" % (J.cls, name),
              model=J.M.describe())
        ctx.saw("later")


def p17_copy(a):
    return tuple(x.copy() if isinstance(x, np.ndarray) else x for x in a)


def userfn(ctx, rng):
    """a user function fails at a random call"""
    while True:
        J = p17.Job(ctx, rng)
        if not J.linear:
            break
    state = {"n": 0, "k": None, "exc": None}

    def switch():
        state["n"] += 1
        if state["k"] is not None and state["n"] == state["k"]:
            raise state["exc"]

    J.M.switch = switch
    kf, twin = ctx.call("construct", J.cls, J.make), ctx.call("construct", J.cls, J.make)
    later = calls_for(J, rng)
    ref = battery(ctx, J, twin, later)
    for _ in range(int(rng.randint(1, 4))):
        name, a, kw = J.ops(rng)
        state.update(n=0, k=None)
        _, e, _ = attempt(getattr(twin, name), *p17_copy(a), **kw)
        total = state["n"]
        if e is not None or total == 0:
            ctx.saw("not_failing")
            continue
        k = int(rng.randint(1, total + 1))
        cls_ = USER[rng.randint(len(USER))]
        exc = cls_("from the user's function")
        vals = list(a) + [kw[x] for x in sorted(kw)]
        args = (vals, [p17.snap(x) for x in vals])
        pub, before = p17.attrs(kf), world()
        state.update(n=0, k=k, exc=exc)
        r, e, changed = attempt(getattr(kf, name), *a, **kw)
        reached = state["n"] >= k
        state["k"] = None
        how = "%s in user call %d of %d" % (cls_.__name__, k, total)
        det = dict(operation=name, model=J.M.describe())
        if reached:
            ctx.check(e is not None, "propagation", "%s.%s returned although a user function raised %s" % (
                J.cls, name, how), **det)
            ctx.check(e is exc or e.__cause__ is exc, "propagation", "%s.%s: %s reached the caller as %s: %s" % (
                J.cls, name, how, type(e).__name__, str(e)[:100]), **det)
            ctx.saw("propagated:" + cls_.__name__)
            ctx.saw("user:" + name)
            ctx.sig("user", J.cls, name, cls_.__name__, min(9, 10 * k // (total + 1)))
        judge_failed(ctx, J, kf, name, cls_, e, before, pub, args, changed, how, None, **det)
    got = battery(ctx, J, kf, later)
    for (name, _, _), x, y in zip(later, got, ref):
        equal(ctx, x, y, "later/" + name, "%s.%s after a failed call" % (J.cls, name), model=J.M.describe())
        ctx.saw("later")


def bad(rng, J, name, a, kw):
    """spoil one argument; (description, args, kwargs) - the call may or may not raise"""
    a, kw = list(a), dict(kw)
    if name in ("filter", "smooth", "loglikelihood"):
        k = str(rng.choice(["columns", "3d", "text", "object", "rows"]))
        Z = a[0]
        if k == "columns":
            a[0] = np.hstack([np.ma.getdata(Z), np.ma.getdata(Z)[:, :1]])
        elif k == "3d":
            a[0] = np.ma.getdata(Z)[None].repeat(2, 0)
        elif k == "text":
            a[0] = np.ma.getdata(Z).astype(str); a[0][-1, -1] = "x"
        elif k == "object":
            a[0] = np.ma.getdata(Z).astype(object); a[0][-1, -1] = None
        else:
            a[0] = np.vstack([np.ma.getdata(Z)] * 4)
        return k, tuple(a), kw
    if name == "sample":
        k = str(rng.choice(["seed", "state", "count"]))
        if k == "seed":
            kw["random_state"] = "seed"
        elif k == "state":
            kw["initial_state"] = np.zeros(J.M.n + 2)
        else:
            a[0] = "three"
        return k, tuple(a), kw
    k = str(rng.choice(["mean", "cov", "obs", "extra"]))
    if k == "mean":
        a[0] = np.zeros(J.M.n + 2)
    elif k == "cov":
        a[1] = np.eye(J.M.n + 2)
    elif k == "obs":
        a[2] = np.zeros(J.M.m + 2)
    elif J.linear:
        p = str(rng.choice(["transition_matrix", "observation_matrix", "transition_covariance"]))
        kw[p] = np.zeros((2, 3, 4))
    else:
        kw["transition_covariance"] = np.zeros((J.M.n + 1, 7))
    return k, tuple(a), kw


def malformed(ctx, rng):
    """malformed arguments: whatever the call does, it leaves no trace"""
    J = p17.Job(ctx, rng)
    kf, twin = ctx.call("construct", J.cls, J.make), ctx.call("construct", J.cls, J.make)
    later = calls_for(J, rng)
    ref = battery(ctx, J, twin, later)
    for _ in range(int(rng.randint(1, 4))):
        name, a, kw = J.ops(rng)
        kind, a, kw = bad(rng, J, name, a, kw)
        vals = list(a) + [kw[x] for x in sorted(kw)]
        args = (vals, [p17.snap(x) for x in vals])
        pub, before = p17.attrs(kf), world()
        r, e, changed = attempt(getattr(kf, name), *a, **kw)
        ctx.saw("refused" if e is not None else "accepted")
        judge_failed(ctx, J, kf, name, None, e, before, pub, args, changed, "malformed " + kind, None,
                     model=J.M.describe())
        if e is not None:
            ctx.sig("malformed", J.cls, name, kind, type(e).__name__)
    got = battery(ctx, J, kf, later)
    for (name, _, _), x, y in zip(later, got, ref):
        equal(ctx, x, y, "later/" + name, "%s.%s after a malformed call" % (J.cls, name), model=J.M.describe())


def em_fault(ctx, rng):
    """EM fails part-way: the parameters are those after some number of complete iterations"""
    cls = lc.pick_class(rng)
    M = models.lin(rng, T=int(rng.choice([3, 5, 9])), tv_ok=lc.TV[cls], scale=False)
    Z, obs, mk = models.observations(rng, M)
    if not obs.any():
        return
    omit, extra = lc.omit_some(rng, M) if rng.rand() < 0.3 else ((), {})
    if omit:
        extra = {"n_dim_state": M.n, "n_dim_obs": M.m}
    arg, ks = em.subset(rng)
    if cls != "KalmanFilter" and arg is None:
        arg = sorted(em.DEFAULT)
    n_iter = int(rng.randint(1, 5))
    mk_ = lambda: ctx.call("construct", cls, M.make, cls, omit, **extra)  # noqa: E731
    kf, twin = mk_(), mk_()
    zcopy = lambda: Z.copy()  # noqa: E731
    # the states after 0, 1, ... complete iterations
    trace = [None]
    for i in range(n_iter + 1):
        _, e, _ = attempt(twin.em, zcopy(), n_iter=1 if i else 0, em_vars=arg)
        if e is not None:
            ctx.saw("em_degenerate")
            return
        p = {k: np.array(getattr(twin, a), float) for k, a in em.ATTR.items()}
        if i:
            P = em.params_of(twin, M)
            if not all(np.isfinite(v).all() for v in p.values()) or em.degenerate(P):
                ctx.saw("em_degenerate")
                return
            trace.append(p)
        else:
            trace[0] = p
    probe = Tracer()
    count = mk_()
    _, e, _ = attempt(probe.run, count.em, zcopy(), n_iter=n_iter, em_vars=arg)
    if e is not None:
        return
    k = int(rng.randint(1, probe.n + 1))
    exc = BENEATH[rng.randint(len(BENEATH))]
    z = zcopy()
    args = ([z], [p17.snap(z)])
    before = world()
    given = {a: p17.snap(getattr(kf, a)) for a in em.ATTR.values()}
    other = {a: v for a, v in p17.attrs(kf).items() if a not in given}
    tr = Tracer(k, exc)
    _, e, changed = attempt(tr.run, kf.em, z, n_iter=n_iter, em_vars=arg)
    det = dict(model=M.describe(), Z=Z, em_vars=str(arg), n_iter=n_iter, call=k, of=probe.n, where=tr.where)
    how = "%s in call %d of %d, %s" % (exc.__name__, k, probe.n, tr.where)
    ctx.check(world() == before and not changed, "world", "%s.em (%s) changed a process-wide setting" % (cls, how), **det)
    ctx.check([p17.snap(x) for x in args[0]] == args[1], "arguments", "%s.em (%s) changed its arguments" % (cls, how), **det)
    now = {a: v for a, v in p17.attrs(kf).items() if a not in given}
    ctx.check(now == other, "parameters", "%s.em (%s) changed %s of the filter" % (
        cls, how, [a for a in other if other[a] != now.get(a)]), **det)
    untouched = {a: p17.snap(getattr(kf, a)) for a in em.ATTR.values()} == given
    done = None
    if untouched:
        done = 0
    else:
        p = {k_: getattr(kf, a) for k_, a in em.ATTR.items()}
        if all(v is not None for v in p.values()):
            for j, q in enumerate(trace):
                if all(np.shape(p[x]) == q[x].shape and np.allclose(
                        np.asarray(p[x], float), q[x], rtol=1e-9, atol=1e-9 * max(1e-300, np.abs(q[x]).max()))
                       for x in q):
                    done = j
                    break
    ctx.check(done is not None, "em-atomic",
              "%s.em interrupted (%s): the parameters are not those after any number of complete iterations" % (
                  cls, how), now={a: getattr(kf, a) for a in em.ATTR.values()}, trace=trace, **det)
    if e is not None and tr.where is not None:
        ctx.saw("em_failed:" + cls)
        ctx.saw("em_failed_after_%d" % min(done, 2))
        ctx.sig("em", cls, M.signature(), exc.__name__, tr.where, done, n_iter)
    # going on from there gives what a filter with those parameters gives
    rest = int(rng.randint(1, 3))
    a1 = attempt(kf.em, zcopy(), n_iter=rest, em_vars=arg)
    if done + rest < len(trace):
        ctx.check(a1[1] is None, "em-resume", "%s.em after an interrupted em raised %r" % (cls, a1[1]), **det)
        for x, q in trace[done + rest].items():
            ctx.close(np.asarray(getattr(kf, em.ATTR[x]), float), q,
                      max(np.abs(q).max(), 1e-3 * max(np.abs(v).max() for v in trace[0].values())), "em-resume",
                      "%s.em resumed after a failure in iteration %d: %s" % (cls, done + 1, x), 1e-6, **det)
        ctx.saw("em_resumed")


def em_malformed(ctx, rng):
    """em given something it cannot use: if it refuses, the filter is as it was"""
    while True:
        J = p17.Job(ctx, rng)
        if J.linear and J.obs.any() and J.T > 1:
            break
    kf = ctx.call("construct", J.cls, J.make)
    for _ in range(int(rng.randint(1, 4))):
        Z = J.zarg(rng)
        kw = dict(n_iter=int(rng.randint(1, 4)),
                  em_vars=["transition_covariance", "observation_covariance", "initial_state_mean"])
        u = int(rng.randint(4))
        if u < 2:
            kind, (Z,), _ = bad(rng, J, "filter", (Z,), {})
            kw["n_iter"] = 1  # what broadcasts may get through an iteration
            if kind == "rows":
                continue
        elif u == 2:
            kind, kw["n_iter"] = "count", [None, "three", 2.5, [2]][rng.randint(4)]
        else:
            kind, kw["em_vars"] = "em_vars", [7, 3.5][rng.randint(2)]
        vals = [Z, kw["n_iter"], kw["em_vars"]]
        args = (vals, [p17.snap(x) for x in vals])
        # omitted parameters and lists become arrays before the first iteration
        zero = ctx.call("construct", J.cls, J.make)
        ctx.call("em", J.cls + ".em", zero.em, J.zarg(rng), n_iter=0, em_vars=["transition_matrices"])
        pub, before = p17.attrs(kf), world()
        r, e, changed = attempt(kf.em, Z, **kw)
        if e is None:
            ctx.saw("em_accepted")
            break
        if p17.attrs(kf) == p17.attrs(zero):
            pub = p17.attrs(zero)
        judge_failed(ctx, J, kf, "em", None, e, before, pub, args, changed, "malformed " + kind, None,
                     model=J.M.describe())
        ctx.saw("em_refused")
        ctx.sig("em malformed", J.cls, kind, type(e).__name__)


def _noop(*a):
    pass


def unusual(kind):
    """Run a workload under random floating-point error settings, so that any other setting shows."""
    def run(ctx, rng):
        k = [str(rng.choice(["ignore", "warn", "call"])) for _ in range(4)]
        with np.errstate(divide=k[0], over=k[1], under=k[2], invalid=k[3], call=_noop):
            kind(ctx, rng)
    return run


KINDS = {"beneath": unusual(calls_fault), "userfn": unusual(userfn), "malformed": unusual(malformed),
         "em": unusual(em_fault), "em_malformed": unusual(em_malformed)}
PLAN = {"quick": {"beneath": 900, "userfn": 900, "malformed": 900, "em": 900, "em_malformed": 300},
        "thorough": {"beneath": 15000, "userfn": 15000, "malformed": 15000, "em": 20000, "em_malformed": 5000}}
REQUIRED = (["failed:" + c for c in models.LINEAR + nl.UNSC]
            + ["failed:" + o for o in ("filter", "smooth", "sample", "loglikelihood", "filter_update")]
            + ["user:" + o for o in ("filter", "smooth", "sample", "filter_update")]
            + ["propagated:" + c.__name__ for c in USER] + ["later", "refused", "em_resumed", "em_refused"]
            + ["em_failed:" + c for c in models.LINEAR]
            + ["em_failed_after_%d" % i for i in range(3)])
ASSUMPTIONS = ["faults are injected at the entry of functions called beneath an operation, not between two "
               "bytecodes of one assignment"]
