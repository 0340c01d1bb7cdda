"""P16: sampling is reproducible and follows the seed rules."""

import json
import os
import subprocess
import sys

import numpy as np

from .. import core, lincommon as lc, models, nlcommon as nl

RULE = ("histories of sampling calls with every seed source interleaved with other operations, generator "
        "states recorded before and after each call; distinct by class, seed sources and history; "
        "invalid seeds probed by type")


def build(ctx, rng, T=None):
    cls = str(rng.choice(models.LINEAR + nl.UNSC))
    if cls in models.LINEAR:
        M = models.lin(rng, T=T or int(rng.randint(1, 8)), tv_ok=lc.TV[cls])
        return cls, M, lambda **k: ctx.call("construct", cls, M.make, cls, **k)
    N = nl.NL(rng, cls != "UKF", T=T or int(rng.randint(1, 8)))
    return cls, N, lambda **k: ctx.call("construct", cls, N.make, cls, **k)


def state(rs=None):
    s = np.random.get_state() if rs is None else rs.get_state()
    return (s[0], s[1].tobytes()) + tuple(s[2:])


def eq(ctx, a, b, mech, what, **det):
    for i in (0, 1):
        x, y = np.ma.getdata(a[i]), np.ma.getdata(b[i])
        ctx.check(x.shape == y.shape and np.array_equal(x, y, equal_nan=True), mech, what, first=x,
                  second=y, **det)


def ne(a, b):
    return not np.array_equal(np.ma.getdata(a[0]), np.ma.getdata(b[0]))


def other_ops(ctx, rng, kf, M, cls):
    """Operations that must not touch any generator."""
    z = M.simulate(rng)[1] if hasattr(M, "simulate") else models.simulate(rng, M)[1]
    op = str(rng.choice(["filter", "smooth", "loglik", "construct"]))
    if op == "loglik":
        if cls in models.LINEAR:
            kf.loglikelihood(z)
    elif op == "construct":
        M.make(cls, random_state=3)
    else:
        try:
            getattr(kf, op)(z)
        except np.linalg.LinAlgError:
            ctx.saw("skipped:indefinite-transform")
    return op


def history(ctx, rng):
    """A history of calls; each seeded call equals the same call on a fresh filter."""
    cls, M, make = build(ctx, rng)
    T = M.T
    ctor = None if rng.rand() < 0.5 else int(rng.randint(0, 1 << 32, dtype=np.int64))
    kf = make(**({} if ctor is None else {"random_state": ctor}))
    x0 = rng.randn(M.n)
    seeds = [0, 1, int(rng.randint(1 << 30)), (1 << 32) - 1, np.int64(77), np.int32(5), np.uint8(200)]
    trace = []
    for _ in range(int(rng.randint(4, 10))):
        src = str(rng.choice(["call", "ctor", "object", "other", "ctor-object", "global"]))
        kw = {"initial_state": x0.copy()} if rng.rand() < 0.3 else {}
        det = dict(cls=cls, ctor=ctor, history=list(trace), source=src)
        g0 = state()
        if src == "other":
            src = other_ops(ctx, rng, kf, M, cls)
            ctx.check(state() == g0, "global/untouched", "%s.%s changed the global generator" % (cls, src), **det)
        elif src == "call":
            s = seeds[rng.randint(len(seeds))]
            a = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=s, **kw)
            ctx.check(state() == g0, "global/untouched", cls + ".sample(seed) changed the global generator", **det)
            b = make().sample(T, random_state=int(s), **kw)
            eq(ctx, a, b, "seed/call", "%s.sample(random_state=%d) after other calls vs fresh filter" % (cls, s), **det)
            b = make(random_state=s).sample(T, **kw)
            eq(ctx, a, b, "seed/ctor", "%s(random_state=%d).sample() vs sample(random_state=)" % (cls, s), **det)
            b = make().sample(T, random_state=np.random.RandomState(int(s)), **kw)
            eq(ctx, a, b, "seed/object", "%s.sample(RandomState(%d)) vs sample(%d)" % (cls, s, s), **det)
            ctx.check(state() == g0, "global/untouched", cls + ".sample(seed) changed the global generator", **det)
            ctx.saw("seed_call")
        elif src == "ctor":
            if ctor is None:
                continue
            a = ctx.call("sample", cls + ".sample", kf.sample, T, **kw)
            b = make(random_state=ctor).sample(T, **kw)
            eq(ctx, a, b, "seed/ctor-again",
               "%s(random_state=%d).sample() after other calls vs first call" % (cls, ctor), **det)
            ctx.check(state() == g0, "global/untouched", cls + ".sample() (seeded filter) changed the global generator", **det)
            # the call's seed takes precedence, including 0
            s = int(rng.choice([0, 1, 12345]))
            a = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=s, **kw)
            b = make().sample(T, random_state=s, **kw)
            eq(ctx, a, b, "precedence", "%s(random_state=%d).sample(random_state=%d)" % (cls, ctor, s), **det)
            ctx.saw("precedence")
        elif src == "object":
            s = int(rng.randint(1 << 30))
            r1, r2 = np.random.RandomState(s), np.random.RandomState(s)
            before = state(r1)
            a1 = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=r1, **kw)
            mid = state(r1)
            a2 = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=r1, **kw)
            ctx.check(mid != before, "object/advanced", cls + ".sample does not advance the generator", **det)
            b1 = make().sample(T, random_state=r2, **kw)
            b2 = make().sample(T, random_state=r2, **kw)
            eq(ctx, a1, b1, "object/same", cls + ".sample with equal generators", **det)
            eq(ctx, a2, b2, "object/continued", cls + ".sample with equal generators, second call", **det)
            ctx.check(state(r1) == state(r2), "object/state", "generator states differ", **det)
            ctx.check(state() == g0, "global/untouched", cls + ".sample(generator) changed the global generator", **det)
            if not kw or T > 1:
                ctx.check(ne(a1, a2), "object/repeats", cls + ".sample repeats with an advanced generator", **det)
            ctx.saw("generator_object")
        elif src == "ctor-object":
            s = int(rng.randint(1 << 30))
            r1, r2 = np.random.RandomState(s), np.random.RandomState(s)
            k2 = make(random_state=r1)
            for i in range(3):
                a = ctx.call("sample", cls + ".sample", k2.sample, T, **kw)
                b = make().sample(T, random_state=r2, **kw)
                eq(ctx, a, b, "object/ctor", "%s(random_state=generator).sample(), call %d" % (cls, i), **det)
                ctx.check(state(r1) == state(r2), "object/state", "constructor generator is advanced", **det)
            ctx.check(state() == g0, "global/untouched", cls + ".sample(generator) changed the global generator", **det)
            ctx.saw("generator_ctor")
        else:
            if ctor is not None:
                continue
            s = int(rng.randint(1 << 30))
            np.random.seed(s)
            a1 = ctx.call("sample", cls + ".sample", kf.sample, T, **kw)
            a2 = ctx.call("sample", cls + ".sample", kf.sample, T, random_state=None, **kw)
            end = state()
            r = np.random.RandomState(s)
            b1 = make().sample(T, random_state=r, **kw)
            b2 = make().sample(T, random_state=r, **kw)
            eq(ctx, a1, b1, "global/used", cls + ".sample() uses the global generator", **det)
            eq(ctx, a2, b2, "global/used", cls + ".sample() uses the global generator, second call", **det)
            ctx.check(end == state(r), "global/advanced", cls + ".sample() advances the global generator", **det)
            ctx.saw("global")
        trace.append(src)
    ctx.saw("history:" + cls)
    ctx.sig(cls, ctor is None, T, *trace)


BAD = ["seed", b"1", 1.5, 3.0, [1, 2], (1,), {}, object(), np.array([1, 2]), np.float64(2), 1 + 2j, len]


def invalid(ctx, rng):
    """Anything else is a ValueError, and it leaves the filter usable."""
    cls, M, make = build(ctx, rng)
    bad = list(BAD)
    bad += [np.random.default_rng(1), np.random.MT19937(1), np.random.RandomState]
    v = bad[rng.randint(len(bad))]
    g0 = state()
    s = int(rng.randint(1 << 30))
    kf = make(random_state=s)
    ctx.raises(ValueError, "invalid/call", "%s.sample(random_state=%s)" % (cls, type(v).__name__),
               kf.sample, M.T, random_state=v)

    def through_ctor():
        make_bad = M.make(cls, random_state=v)
        make_bad.sample(M.T)

    ctx.raises(ValueError, "invalid/ctor", "%s(random_state=%s).sample()" % (cls, type(v).__name__), through_ctor)
    ctx.check(state() == g0, "global/untouched", "a refused seed changed the global generator")
    a = ctx.call("sample", cls + ".sample", kf.sample, M.T)
    eq(ctx, a, make().sample(M.T, random_state=s), "invalid/after", cls + ".sample after a refused seed")
    ctx.saw("invalid")
    ctx.saw("invalid:" + type(v).__name__)
    ctx.sig("invalid", cls, type(v).__name__)


def differs(ctx, rng):
    """Different seeds give different samples."""
    cls, M, make = build(ctx, rng)
    a = make().sample(M.T, random_state=1)
    b = ctx.call("sample", cls + ".sample", make().sample, M.T, random_state=2)
    ctx.check(ne(a, b), "differs", cls + ".sample gives the same states for seeds 1 and 2")
    ctx.saw("differs")


CHILD = r"""
import json, sys
sys.path[:0] = json.loads(sys.argv[1])
import numpy as np
np.seterr(all="ignore")
from kv import core
from kv.props import p16
core.check_import()
out = []
for seed in json.loads(sys.argv[2]):
    ctx = core.Ctx("P16", "quick"); ctx.case = {}
    rng = np.random.RandomState(seed)
    cls, M, make = p16.build(ctx, rng)
    np.random.seed(seed + 99); np.random.rand(seed % 7)
    x, z = make().sample(M.T, random_state=seed)
    out.append([x.tobytes().hex(), np.ma.getdata(z).tobytes().hex()])
print(json.dumps(out))
"""


def process(ctx, rng):
    """A fresh interpreter (other hash seed, other global state) gives the same bytes."""
    seeds = [int(s) for s in rng.randint(0, 1 << 30, 12)]
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 1000)))
    r = subprocess.run([sys.executable, "-B", "-c", CHILD, json.dumps([core.VERIF, core.REPO]),
                        json.dumps(seeds)], capture_output=True, text=True, env=env, timeout=300)
    if r.returncode:
        raise core.Inconclusive("child failed: " + r.stderr[-300:])
    out = json.loads(r.stdout.strip().splitlines()[-1])
    for seed, (hx, hz) in zip(seeds, out):
        cls, M, make = build(ctx, np.random.RandomState(seed))
        x, z = ctx.call("sample", cls + ".sample", make().sample, M.T, random_state=seed)
        ctx.check(x.tobytes().hex() == hx and np.ma.getdata(z).tobytes().hex() == hz, "process",
                  cls + ".sample differs between processes", seed=seed)
        ctx.saw("process:" + cls)


KINDS = {"history": history, "invalid": invalid, "differs": differs, "process": process}
PLAN = {"quick": {"history": 1500, "invalid": 500, "differs": 200, "process": 10},
        "thorough": {"history": 20000, "invalid": 4000, "differs": 2000, "process": 60}}
REQUIRED = (["history:" + c for c in models.LINEAR + nl.UNSC]
            + ["seed_call", "precedence", "generator_object", "generator_ctor", "global", "invalid", "differs"]
            + ["process:KalmanFilter"])
ASSUMPTIONS = ["an invalid constructor seed may be refused at construction or at sampling"]
