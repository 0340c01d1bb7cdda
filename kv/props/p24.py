"""P24: the cost of every operation is linear in the length, and nothing accumulates."""

import gc
import os
import sys
import time
import tracemalloc
import warnings
import weakref

import numpy as np

from .. import models, nlcommon as nl
from ..core import REPO

LIB = os.path.join(REPO, "pykalman") + os.sep

RULE = ("operations of all six classes with 1, 2 and 4 times the time steps, EM with 1, 2 and 4 times the "
        "iterations, 1 and 4 times the dimension, the same call many times on one filter: Python-level events "
        "(calls, C calls, lines of the library), user-function calls, and peak and retained memory counted by "
        "trace functions and tracemalloc; distinct by class, operation, missing pattern and parameter forms")

ALL = models.LINEAR + nl.UNSC


class Meter:
    """Work done below a call: trace and profile events, peak memory."""

    def __init__(self):
        self.events = 0

    def _profile(self, frame, event, arg):
        self.events += 1

    def _local(self, frame, event, arg):
        self.events += 1
        return self._local

    def _trace(self, frame, event, arg):
        self.events += 1
        return self._local if frame.f_code.co_filename.startswith(LIB) else None


class Fresh:
    """Bytes of the arrays that come into being below a call, as bound to variables of the library or returned by
    any Python function: work inside single NumPy calls that leaves its trace in the size of their results."""

    def __init__(self):
        self.bytes = 0
        self.live = {}

    def _see(self, v):
        if isinstance(v, np.ndarray):
            r = self.live.get(id(v))
            if r is not None and r() is v:
                return
            self.live[id(v)] = weakref.ref(v)
            if v.base is None:
                self.bytes += v.nbytes

    def _profile(self, frame, event, arg):
        if event == "return":
            self._see(arg)

    def _local(self, frame, event, arg):
        for v in frame.f_locals.values():
            self._see(v)
        return self._local

    def _trace(self, frame, event, arg):
        return self._local if frame.f_code.co_filename.startswith(LIB) else None


def fresh(fn):
    """bytes of new arrays beneath fn()"""
    m = Fresh()
    sys.setprofile(m._profile)
    sys.settrace(m._trace)
    try:
        fn()
    finally:
        sys.settrace(None)
        sys.setprofile(None)
    return m.bytes


def work(fn):
    """number of events beneath fn()"""
    m = Meter()
    on = gc.isenabled()
    gc.disable()
    sys.setprofile(m._profile)
    sys.settrace(m._trace)
    try:
        fn()
    finally:
        sys.settrace(None)
        sys.setprofile(None)
        if on:
            gc.enable()
    return m.events


def peak(fn):
    """peak memory beneath fn(), in bytes"""
    gc.collect()
    tracemalloc.start()
    try:
        tracemalloc.reset_peak()
        base = tracemalloc.get_traced_memory()[0]
        fn()
        return tracemalloc.get_traced_memory()[1] - base
    finally:
        tracemalloc.stop()


def keeps(fn, limit):
    """bytes still held after fn(), while tracing; what is kept must be kept every time"""
    least = None
    for _ in range(4):
        gc.collect()
        a = tracemalloc.get_traced_memory()[0]
        fn()
        gc.collect()
        g = tracemalloc.get_traced_memory()[0] - a
        least = g if least is None else min(g, least)
        if least <= limit:
            break
    return least


class Long:
    """A stationary model, its parameters periodic, for any number of time steps."""

    def __init__(self, rng, cls=None, n=None, m=None):
        self.cls = cls or str(rng.choice(ALL))
        self.linear = cls in models.LINEAR if cls else self.cls in models.LINEAR
        self.n = n or int(rng.randint(1, 5))
        self.m = m or int(rng.randint(1, 4))
        self.p = int(rng.choice([1, 2, 3, 4]))
        self.calls = 0
        self.rng = np.random.RandomState(rng.randint(1 << 30))
        n, m = self.n, self.m
        q = np.linalg.qr(rng.randn(n, n))[0]
        self.A = rng.uniform(0.5, 0.95) * q if rng.rand() < 0.8 else 0.9 * np.eye(n)
        C = rng.randn(m, n)
        if m > 1 and rng.rand() < 0.2:
            C[-1] = C[0]
        self.C = C
        self.Q, self.R = models.spd(rng, n, 10), models.spd(rng, m, 10)
        self.par = {k: rng.rand() < 0.4 for k in ("A", "b", "C", "d", "Q", "R", "mu0", "P0")}
        self.wave = 1 + 0.1 * rng.randn(self.p)
        ok = "AbQCdR" if self.cls == "KalmanFilter" else "AbCd" if self.linear else "fg"
        self.tv = {k for k in ok if self.p > 1 and rng.rand() < 0.5}
        self.miss = str(rng.choice(["none", "none", "nomask", "tiled", "tail", "all", "first", "mostly", "block"]))
        self.pattern = rng.rand(self.p) < 0.5

    def z(self, T):
        Z = self.rng.randn(T, self.m)
        if self.miss == "none":
            return Z
        Z = np.ma.array(Z, mask=np.zeros(Z.shape, bool))
        i = np.arange(T)
        if self.miss == "tiled":
            Z.mask[self.pattern[i % self.p]] = True
        elif self.miss == "tail":
            Z.mask[i >= 3 * T // 4] = True
        elif self.miss == "all":
            Z.mask[:] = True
        elif self.miss == "first":
            Z.mask[0] = True
        elif self.miss == "mostly":
            Z.mask[i % 6 > 0] = True
        elif self.miss == "block":
            Z.mask[(i >= T // 3) & (i < 2 * T // 3)] = True
        return Z

    def _rep(self, k, v, T):
        if k not in self.tv:
            return v
        w = self.wave[np.arange(T) % self.p]
        return w.reshape((T,) + (1,) * v.ndim) * v

    def make(self, T):
        n, m = self.n, self.m
        if self.linear:
            kw = dict(n_dim_state=n, n_dim_obs=m)
            v = dict(A=self.A, b=np.ones(n), C=self.C, d=np.ones(m), Q=self.Q, R=self.R, mu0=np.ones(n), P0=2 * np.eye(n))
            for k, x in v.items():
                if not self.par[k] or k in self.tv or k in "AC":
                    kw[models.SHORT[k]] = self._rep(k, x, T - 1 if k in "AbQ" else T)
            return models.cls_of(self.cls)(**kw)
        A, C, sin = self.A, self.C, np.sin
        w = self.wave

        def f(i):
            def fn(x, *e):
                self.calls += 1
                return w[i] * A.dot(x) + 0.1 * sin(x) + (e[0] if e else 0.0)
            return fn

        def g(i):
            def fn(x, *e):
                self.calls += 1
                return w[i] * C.dot(x) + 0.1 * sin(C.dot(x)) + (e[0] if e else 0.0)
            return fn

        F = [f(i) for i in range(self.p)]
        G = [g(i) for i in range(self.p)]
        kw = dict(transition_functions=[F[t % self.p] for t in range(T - 1)] if "f" in self.tv else F[0],
                  observation_functions=[G[t % self.p] for t in range(T)] if "g" in self.tv else G[0],
                  n_dim_state=n, n_dim_obs=m)
        if not self.par["Q"]:
            kw["transition_covariance"] = self.Q
        if not self.par["R"]:
            kw["observation_covariance"] = self.R
        return models.cls_of(self.cls)(**kw)

    def ops(self):
        return ["filter", "smooth", "sample"] + (["loglikelihood", "em"] if self.linear else [])

    def run(self, op, T, n_iter=1):
        """A call of no arguments that performs op over T time steps."""
        kf = self.make(T)
        if op == "sample":
            return lambda: kf.sample(T, random_state=1)
        Z = self.z(T)
        if op == "em":
            ev = [models.SHORT[k] for k in models.SHORT if k not in self.tv and not self.par[k]] or ["initial_state_mean"]
            return lambda: kf.em(Z, n_iter=n_iter, em_vars=ev)
        return lambda: getattr(kf, op)(Z)

    def name(self, op):
        return "%s.%s" % (self.cls, op)

    def describe(self):
        return dict(cls=self.cls, n=self.n, m=self.m, period=self.p, time_varying=sorted(self.tv), missing=self.miss,
                    omitted=[k for k in self.par if self.par[k]])


def guarded(fn, *a):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a)
    except (np.linalg.LinAlgError, ValueError, FloatingPointError):
        return None


def affine(ctx, L, x, mech, what, unit, slack):
    """x at 1, 2 and 4 times the size grows no faster than linearly"""
    a, b, c = x
    ctx.check(c - b <= 1.25 * 2 * (b - a) + slack, mech, "%s: %s %d, %d, %d with 1, 2, 4 times the %s" % (
        (what, mech) + tuple(x) + (unit,)), model=L.describe())
    if b > a:
        ctx.peak("growth_%s" % mech, (c - b) / (2.0 * (b - a)) if c - b > slack else 0.0)


def length(ctx, rng):
    """1, 2 and 4 times the time steps"""
    L = Long(rng)
    T = 12 if rng.rand() < 0.7 else 24
    for op in L.ops():
        if rng.rand() < 0.5:
            continue
        if op == "em" and L.miss == "all":
            continue
        if guarded(L.run(op, T)) is None:
            ctx.saw("degenerate")
            continue
        ev, us = [], []
        for k in (1, 2, 4):
            fn = L.run(op, k * T)
            L.calls = 0
            e = guarded(work, fn)
            if e is None:
                break
            ev.append(e)
            us.append(L.calls)
        if len(ev) < 3:
            ctx.saw("degenerate")
            continue
        what = L.name(op)
        affine(ctx, L, ev, "events", what, "time steps", 1500)
        affine(ctx, L, us, "user-calls", what, "time steps", 8)
        ctx.saw("events", sum(ev))
        ctx.saw("length:" + what)
        by = [guarded(fresh, L.run(op, k * T)) for k in (1, 2, 4)]
        if None not in by:
            affine(ctx, L, by, "bytes", what, "time steps", 8192)
            ctx.saw("fresh_bytes", sum(by))
        pk = [guarded(peak, L.run(op, k * 2 * T)) for k in (1, 2, 4)]
        if None not in pk:
            affine(ctx, L, pk, "memory", what, "time steps", 65536)
        ctx.sig("length", what, L.miss, "".join(sorted(L.tv)), L.n, L.m)


def iterations(ctx, rng):
    """EM with 1, 2 and 4 iterations"""
    L = Long(rng, cls=str(rng.choice(models.LINEAR)))
    while L.miss == "all":
        L = Long(rng, cls=L.cls)
    k0 = int(rng.choice([1, 2, 3, 8]))
    T = int(rng.choice([10, 20, 60] if k0 < 8 else [4, 10]))
    if guarded(L.run("em", T)) is None:
        ctx.saw("degenerate")
        return
    ev = [guarded(work, L.run("em", T, k0 * k)) for k in (1, 2, 4)]
    pk = [guarded(peak, L.run("em", T, k0 * k)) for k in (1, 2, 4)]
    if None in ev or None in pk:
        ctx.saw("degenerate")
        return
    affine(ctx, L, ev, "events", L.cls + ".em", "iterations", 1500)
    ctx.check(pk[2] <= 1.1 * pk[1] + 16384, "memory", "%s.em: peak memory %d, %d with 2, 4 times %d iterations" % (
        L.cls, pk[1], pk[2], k0), model=L.describe())
    ctx.saw("events", sum(ev))
    ctx.saw("iterations:" + L.cls)
    ctx.sig("iterations", L.cls, L.miss, "".join(sorted(L.tv)), L.n, L.m, k0)


def dimension(ctx, rng):
    """1 and 4 times the dimensions"""
    cls = str(rng.choice(ALL))
    n = int(rng.choice([3, 5, 8]))
    m = int(rng.choice([1, 2, 4]))
    big = str(rng.choice(["both", "state", "obs"]))
    seed = int(rng.randint(1 << 30))
    mk = lambda k: Long(np.random.RandomState(seed), cls, n * (k if big != "obs" else 1), m * (k if big != "state" else 1))  # noqa: E731
    T = int(rng.choice([5, 12]))
    for op in mk(1).ops():
        if rng.rand() < 0.4:
            continue
        la, lb = mk(1), mk(4)
        la.miss = lb.miss = "none"
        a, b = la.run(op, T), lb.run(op, T)
        if guarded(la.run(op, T)) is None or guarded(lb.run(op, T)) is None:
            ctx.saw("degenerate")
            continue
        what = "%s with %s dimensions of (%d, %d) 4 times as large" % (la.name(op), big, n, m)
        pa, pb = guarded(peak, a), guarded(peak, b)
        if pa is None or pb is None:
            continue
        ctx.check(pb <= 16 * 1.5 * pa + 262144, "memory", "%s: peak memory %d, %d" % (what, pa, pb), model=la.describe())
        ea, eb = guarded(work, la.run(op, T)), guarded(work, lb.run(op, T))
        if ea is None or eb is None:
            continue
        ctx.check(eb <= 64 * 1.25 * ea, "events", "%s: events %d, %d" % (what, ea, eb), model=la.describe())
        ctx.saw("events", ea + eb)
        ctx.saw("dimension:" + cls)
        ctx.sig("dimension", what, T)


def repeat(ctx, rng):
    """the same filter used again and again: no call costs more than the first, nothing is kept"""
    L = Long(rng)
    T = int(rng.choice([10, 30]))
    kf = L.make(T)
    op = str(rng.choice(["filter_update", "filter_update"] + [o for o in L.ops() if o != "em"]))
    n, m = L.n, L.m
    kw = {}
    if op == "filter_update":
        if L.linear:
            v = dict(A=L.A, b=np.ones(n), C=L.C, d=np.ones(m), Q=L.Q, R=L.R)
            arg = dict(A="transition_matrix", b="transition_offset", C="observation_matrix", d="observation_offset",
                       Q="transition_covariance", R="observation_covariance")
            kw = {arg[k]: v[k] for k in v if k in L.tv or rng.rand() < 0.2}
        elif L.tv:
            kw = dict(transition_function=L.make(2).transition_functions, observation_function=None)
            K = Long(np.random.RandomState(1), L.cls, n, m)
            K.tv = set()
            k2 = K.make(2)
            kw = dict(transition_function=k2.transition_functions, observation_function=k2.observation_functions)
        st = [np.zeros(n), np.eye(n)]
        reps = 600 if L.linear else 240
        zs = [None if L.miss in ("all",) or (L.miss == "tiled" and i % 3 == 0) else L.rng.randn(m) for i in range(7)]

        def one(i):
            z = zs[i % 7]
            st[0], st[1] = kf.filter_update(st[0], st[1], z, **kw)
    else:
        reps = 30
        Z = L.z(T)
        call = (lambda: kf.sample(T, random_state=1)) if op == "sample" else (lambda: getattr(kf, op)(Z))

        def one(i):
            if op != "sample" and i % 2:
                np.ma.getdata(Z)[0, 0] = i
            call()
    what = L.name(op)

    def go():
        for i in range(reps // 6):
            one(7 * i)
        first = min(work(lambda: one(7 * k)) for k in range(3)), [work(lambda: one(7 * k)) for k in range(2)]
        tracemalloc.start()
        try:
            for i in range(reps // 2):
                one(i)
            grown = keeps(lambda: [one(i) for i in range(reps)] and None, 64 * reps + 4096)
        finally:
            tracemalloc.stop()
        last = min(work(lambda: one(7 * k)) for k in range(3))
        return max(first[1] + [first[0]]), last, grown

    r = guarded(go)
    if r is None:
        ctx.saw("degenerate")
        return
    first, last, grown = r
    ctx.check(last <= 1.1 * first + 50, "drift", "%s: %d events in an early call, %d in a late one" % (what, first, last),
              model=L.describe())
    ctx.check(grown <= 64 * reps + 4096, "retained", "%s: %d bytes more kept after %d more calls" % (what, grown, reps),
              model=L.describe())
    ctx.peak("retained_bytes_per_call", grown / reps)
    ctx.saw("repeat:" + what)
    ctx.sig("repeat", what, L.miss, "".join(sorted(L.tv)), sorted(kw))


def instances(ctx, rng):
    """filters that are gone leave nothing behind"""
    L = Long(rng)
    T = 20
    Z = L.z(T)
    ops = [o for o in L.ops() if not (o == "em" and L.miss == "all")]
    op = str(rng.choice(ops))

    def one():
        kf = L.make(T)
        if op == "sample":
            kf.sample(T, random_state=0)
        elif op == "em":
            kf.em(Z, n_iter=1, em_vars=["initial_state_mean"])
        else:
            getattr(kf, op)(Z)

    def go():
        tracemalloc.start()
        try:
            for _ in range(10):
                one()
            return keeps(lambda: [one() for _ in range(20)] and None, 20 * 256)
        finally:
            tracemalloc.stop()

    grown = guarded(go)
    if grown is None:
        ctx.saw("degenerate")
        return
    ctx.check(grown <= 20 * 256, "retained", "%s of 20 more filters, all gone: %d bytes more kept" % (L.name(op), grown),
              model=L.describe())
    ctx.saw("instances:" + L.cls)
    ctx.sig("instances", L.name(op), L.miss, "".join(sorted(L.tv)))


def cputime(ctx, rng):
    """processor time with 8 times the time steps (a wide margin: the clock is not exact)"""
    L = Long(rng)
    if L.miss == "all":
        L.miss = "none"
    T = 1500 if L.linear else 500
    op = str(rng.choice(L.ops()))
    what = L.name(op)
    ratio = np.inf
    for _ in range(5):
        a, b = L.run(op, T), L.run(op, 8 * T)
        t = []
        for fn in (a, b):
            t0 = time.process_time()
            if guarded(fn) is None:
                ctx.saw("degenerate")
                return
            t.append(time.process_time() - t0)
        ratio = min(ratio, t[1] / max(t[0], 1e-3))
        if ratio <= 16:
            break
    ctx.check(ratio <= 24, "cpu", "%s: %.0f times the processor time with 8 times the time steps" % (what, ratio),
              model=L.describe())
    ctx.peak("cpu_ratio_8_times_longer", ratio)
    ctx.saw("cputime:" + L.cls)
    ctx.sig("cputime", what, L.miss)


KINDS = {"length": length, "iterations": iterations, "dimension": dimension, "repeat": repeat,
         "instances": instances, "cputime": cputime}
PLAN = {"quick": {"length": 140, "iterations": 80, "dimension": 160, "repeat": 140, "instances": 90, "cputime": 24},
        "thorough": {"length": 3500, "iterations": 3000, "dimension": 4000, "repeat": 2500, "instances": 2500,
                     "cputime": 300}}
REQUIRED = (["length:%s.%s" % (c, o) for c in ALL for o in ("filter", "smooth", "sample")]
            + ["length:%s.%s" % (c, o) for c in models.LINEAR for o in ("loglikelihood", "em")]
            + ["iterations:" + c for c in models.LINEAR] + ["dimension:" + c for c in ALL]
            + ["repeat:%s.filter_update" % c for c in ALL] + ["instances:" + c for c in ALL] + ["events"])
ASSUMPTIONS = ["work inside one NumPy call is seen only by its memory and, for long series, by processor time",
               "growth is judged with a margin of 25 percent between one, two and four times the size"]
