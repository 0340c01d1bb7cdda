"""P25: the surroundings change no answer, and the library changes none of its surroundings."""

import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import core, envjobs, lincommon as lc, models
from . import p20

RULE = ("the same jobs (operations of all six classes, EM, the data set, refused calls) here and in a child process "
        "with another hash seed, interpreter options, locale, working directory, memory fill pattern, thread, import "
        "order, error settings; audit hook, output, and a snapshot of process-wide state in the child; distinct by "
        "environment")

MODULES = ["pykalman", "pykalman.sqrt", "pykalman.datasets", "pykalman.utils", "pykalman.standard", "pykalman.unscented",
           "pykalman.sqrt.bierman", "pykalman.sqrt.cholesky", "pykalman.sqrt.unscented"]


def linear_job(rng):
    ctx = core.Ctx("P25", "quick")
    ctx.case = {}
    cls, M, kf, Z, kw, can_em, omit, ev = p20.build(ctx, rng)
    ks = {k: v for k, v in M.kw(omit).items()}
    ks.update(n_dim_state=M.n, n_dim_obs=M.m)
    em = None
    if can_em and rng.rand() < 0.5:
        names = [models.SHORT[k] for k in M.p if k not in M.tv]
        em = [names[i] for i in rng.permutation(len(names))[:rng.randint(1, len(names) + 1)]]
        if rng.rand() < 0.5 and not M.tv:
            em = "all"
    z = np.ma.getdata(Z)[0]
    return dict(kind="ops", cls=cls, kw=ks, Z=Z, em=em, n_iter=int(rng.choice([1, 2])), seed=int(rng.randint(1000)),
                state=(M.p["mu0"].copy(), M.p["P0"].copy()), z=np.where(np.isfinite(z), z, 0.0), ukw=kw)


def odd_job(rng):
    """Models on which special branches are taken; only effects are judged."""
    if rng.rand() < 0.3:
        job = unscented_job(rng)
        k = str(rng.choice(["transition_covariance", "observation_covariance", "initial_state_covariance"]))
        job["kw"][k] = 0 * job["kw"][k]
        return dict(job, kind="odd")
    cls, M, Z, obs, mk = lc.make_case(rng, T=int(rng.choice([1, 2, 5, 30])), degen=0.8)
    em = None
    if not M.tv and rng.rand() < 0.5:
        em = "all"
    if rng.rand() < 0.3:
        Z = np.array(np.ma.getdata(Z))
        Z[rng.randint(len(Z))] *= 1e12
    return dict(kind="odd", cls=cls, kw=M.kw(), Z=Z, em=em, n_iter=int(rng.choice([1, 3, 10])), seed=0,
                state=(M.p["mu0"].copy(), M.p["P0"].copy()), z=np.zeros(M.m),
                ukw={a: M.at(k, 0).copy() for a, k in UPD.items() if k in M.tv})


UPD = {"transition_matrix": "A", "transition_offset": "b", "transition_covariance": "Q",
       "observation_matrix": "C", "observation_offset": "d", "observation_covariance": "R"}


def unscented_job(rng):
    cls, N, kw = p20.make_ukf(rng)
    Z = p20.udata(rng, N)
    return dict(kind="ops", cls=cls, kw=kw, Z=Z, em=None, n_iter=0, seed=int(rng.randint(1000)),
                state=(N.mu0.copy(), N.P0.copy()), z=np.ma.getdata(Z)[0].copy(), ukw=p20.ukw(kw, N))


def refuse_job(rng):
    """A call that has to be refused, everywhere."""
    n = int(rng.randint(1, 4))
    cls = str(rng.choice(models.LINEAR + ("UKF", "AUKF", "SqrtAUKF")))
    z = rng.randn(4, n)
    if cls not in models.LINEAR:
        _, N, kw = p20.make_ukf(rng)
        while not isinstance(kw["transition_functions"], (list, np.ndarray)):
            _, N, kw = p20.make_ukf(rng)
        cls = _
        # several functions stored, none given
        uk = p20.ukw(kw, N)
        uk.pop("transition_function")
        return dict(kind="refuse", cls=cls, kw=kw, op="filter_update", args=(N.mu0.copy(), N.P0.copy(), np.zeros(N.m)),
                    opkw=uk)
    kw = dict(transition_matrices=np.eye(n), observation_matrices=np.eye(n))
    k = rng.randint(9)
    if k == 3:
        kw[str(rng.choice(["transition_offsets", "observation_offsets", "initial_state_mean"]))] = np.zeros(n + 1)
        return dict(kind="refuse", cls=cls, kw=kw, op="filter", args=(z,), opkw={})
    if k == 4:
        return dict(kind="refuse", cls=cls, kw=kw, op="filter", args=(rng.randn(4, n + 2),), opkw={})
    if k == 5:
        kw[str(rng.choice(["transition_covariance", "initial_state_covariance"]))] = np.eye(n) + np.eye(n, k=1)
        return dict(kind="refuse", cls=cls, kw=kw, op="filter", args=(z,), opkw={})
    if k == 0:
        return dict(kind="refuse", cls=cls, kw=kw, op="sample", args=(3,), opkw=dict(random_state="seed"))
    if k == 1:
        return dict(kind="refuse", cls=cls, kw=kw, op="em", args=(z,), opkw=dict(n_iter=1, em_vars=["no_such_parameter"]))
    # a parameter that varies over time, not given for this step
    key = str(rng.choice(["A", "b", "C", "d"] + (["Q", "R"] if cls == "KalmanFilter" else [])))
    one = np.arange(1.0, n + 1) if key in "bd" else 2 * np.eye(n)
    kw[models.SHORT[key]] = np.array([one] * int(rng.choice([2, 3, n])))
    return dict(kind="refuse", cls=cls, kw=kw, op="filter_update",
                args=(np.zeros(n), np.eye(n), None if rng.rand() < 0.5 else z[0]), opkw={})


def make_jobs(ctx, rng, k):
    """Jobs with the answers in this process."""
    out = []
    while len(out) < k:
        u = rng.rand()
        if u < 0.06:
            job = dict(kind="robot")
        elif u < 0.2:
            job = refuse_job(rng)
        elif u < 0.3:
            job = odd_job(rng)
        else:
            job = linear_job(rng) if u < 0.65 else unscented_job(rng)
        blob = pickle.dumps(job)
        try:
            want = envjobs.run(pickle.loads(blob))
        except np.linalg.LinAlgError:
            continue
        if job["kind"] == "odd":
            out.append((blob, {}))
            continue
        if not all(np.isfinite(v).all() for v in want.values()):
            continue
        if job["kind"] == "ops" and any(np.abs(v).max() > 1e8 for v in want.values() if v.size):
            continue
        if job["kind"] == "ops" and job["em"] is not None:
            # learned to the point of degeneracy: rounding would decide
            w = [np.linalg.eigvalsh(c) for c in want["filter.c"]]
            if min(e[0] / max(e[-1], 1e-300) for e in w) < 1e-6:
                continue
        if job["kind"] == "refuse" and not want["refused"][0]:
            ctx.saw("not-refused-here")
            continue
        out.append((blob, want))
    return out


def surroundings(rng, tmp):
    """(environment, interpreter options, settings inside)."""
    env = {"PATH": "/usr/bin:/bin", "PYTHONHASHSEED": str(rng.randint(0, 4000)), "PYTHONDONTWRITEBYTECODE": "1",
           "PYTHONPATH": os.pathsep.join([core.VERIF, core.REPO])}
    opts, tags = [], []

    def some(p, tag):
        if rng.rand() < p:
            tags.append(tag)
            return True
        return False

    u = rng.rand()
    if u < 0.25:
        opts.append("-O"); tags.append("-O")
    elif u < 0.5:
        opts.append("-OO"); tags.append("-OO")
    if some(0.2, "dev"):
        opts += ["-X", "dev"]
    if some(0.4, "-W error"):
        opts += ["-W", "error"]
    if some(0.5, "perturb"):
        env["MALLOC_PERTURB_"] = str(rng.randint(1, 256))
        env["PYTHONMALLOC"] = "malloc"
    if some(0.4, "locale"):
        env["LC_ALL"] = str(rng.choice(["C", "POSIX", "C.UTF-8"]))
        env["PYTHONCOERCECLOCALE"] = "0"
        env["PYTHONUTF8"] = str(rng.choice(["0", "1"]))
    if some(0.3, "zone"):
        env["TZ"] = str(rng.choice(["Asia/Kolkata", "UTC+11", "America/New_York"]))
    if some(0.3, "home"):
        env["HOME"] = str(rng.choice(["/nonexistent", tmp]))
        env["TMPDIR"] = "/nonexistent"
    t = str(rng.choice(["1", "1", "2", "4"]))
    for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        env[k] = t
    if t != "1":
        tags.append("blas threads")
    env["DISPLAY"] = ":99"
    inside = dict(err=dict(zip(("divide", "over", "under", "invalid"),
                               [str(rng.choice(["ignore", "warn", "raise"])) for _ in range(4)])),
                  npseed=int(rng.randint(1 << 30)), gc=str(rng.choice(["on", "off", "often"])),
                  switch=bool(rng.rand() < 0.3), where=str(rng.choice(["main", "main", "thread", "fork"])),
                  print=bool(rng.rand() < 0.3), errors="-W error" in tags)
    inside["err"]["under"] = "ignore"  # gradual underflow is no fault
    if inside["where"] == "fork":
        tags.append("fork")
    if inside["where"] == "thread":
        tags.append("thread")
    return env, opts, inside, tags


def surround(ctx, rng):
    tmp = tempfile.mkdtemp(prefix="kv25")
    try:
        env, opts, inside, tags = surroundings(rng, tmp)
        jobs = make_jobs(ctx, rng, 10)
        work = os.path.join(tmp, "work")
        os.makedirs(os.path.join(work, "data"))
        os.makedirs(os.path.join(work, "descr"))
        # files that a relative path would find
        for f in ("robot.mat", "data/robot.mat", "robot.rst", "descr/robot.rst"):
            with open(os.path.join(work, f), "w") as fo:
                fo.write("decoy")
        if rng.rand() < 0.3:
            os.chmod(work, 0o555)
        order = [MODULES[i] for i in rng.permutation(len(MODULES))][:rng.randint(1, len(MODULES) + 1)]
        res = os.path.join(tmp, "out")
        spec = dict(inside=inside, order=order, out=res, lib=os.path.join(core.REPO, "pykalman") + os.sep,
                    jobs=pickle.dumps([pickle.loads(b) for b, _ in jobs]))
        det = dict(environment={k: v for k, v in env.items() if k != "PYTHONPATH"}, options=opts, inside=inside, order=order)
        r = subprocess.run([sys.executable] + opts + ["-c", "import sys; sys.path[:0] = %r; "
                            "from kv import envjobs; envjobs.child()" % ([core.VERIF, core.REPO],)],
                           input=pickle.dumps(spec), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=work, env=env,
                           timeout=400)
        err = r.stderr.decode(errors="replace")
        if not os.path.exists(res):
            if "pykalman" in err and "Traceback" in err:
                ctx.violation("raised", "the library could not be used in these surroundings: " + err[-800:], **det)
            raise core.Inconclusive("child failed: " + err[-600:])
        with open(res, "rb") as fo:
            rep = pickle.load(fo)
        where = "with " + (", ".join(tags) or "another hash seed")
        if rep["raised"]:
            ctx.violation("raised", "%s: raised %s" % (where, rep["raised"]), **det)
        ctx.check(not rep["effects"], "effects", "%s: the library acted on the world outside: %s" % (where, rep["effects"][:3]), **det)
        ctx.check(not rep["world"], "world", "%s: the library changed: %s" % (where, rep["world"][:3]), **det)
        ctx.check(not r.stdout, "output", "%s: wrote to standard output: %r" % (where, r.stdout[:200]), **det)
        ctx.check(not err.strip(), "output", "%s: wrote to standard error: %s" % (where, err[:400]), **det)
        left = sorted(f for _, _, fs in os.walk(tmp) for f in fs)
        ctx.check(left == sorted(["out", "robot.mat", "robot.mat", "robot.rst", "robot.rst"]), "files",
                  "%s: files appeared or vanished: %s" % (where, left), **det)
        ctx.check(len(rep["results"]) == len(jobs), "results", where + ": results missing", **det)
        for (blob, want), got in zip(jobs, rep["results"]):
            job = pickle.loads(blob)
            name = job.get("cls", "load_robot") + ("." + job["op"] if job["kind"] == "refuse" else "")
            if job["kind"] == "odd":
                ctx.saw("odd")
                continue
            ctx.check(set(want) == set(got) or job["kind"] == "refuse", "results", "%s: %s has other results" % (where, name), **det)
            if job["kind"] == "refuse":
                ctx.check(got["refused"][0] == 1.0, "refused", "%s: %s is refused here and not there" % (where, name), **det)
                ctx.saw("refused")
                continue
            for k in want:
                ctx.check(want[k].shape == got[k].shape, "results", "%s: shape of %s of %s" % (where, k, name), **det)
                ctx.close(got[k], want[k], max(np.abs(want[k]).max() if want[k].size else 1.0, 1e-6), "results",
                          "%s: %s of %s, compared with the same job here" % (where, k, name), 1e-7, job=core.jsonable(job), **det)
            ctx.saw("job:" + (job.get("cls") or "robot"))
            if job.get("em") is not None:
                ctx.saw("job:em")
        for t in tags:
            ctx.saw("env:" + t)
        ctx.saw("children")
        ctx.sig(tuple(tags), inside["where"], inside["gc"], order[0], len(order))
    finally:
        subprocess.run(["chmod", "-R", "u+w", tmp], check=False)
        shutil.rmtree(tmp, ignore_errors=True)


KINDS = {"surround": surround}
PLAN = {"quick": {"surround": 160}, "thorough": {"surround": 6000}}
REQUIRED = (["job:" + c for c in models.LINEAR + ("UKF", "AUKF", "SqrtAUKF")] + ["job:robot", "job:em", "odd", "refused", "children"]
            + ["env:" + t for t in ("-O", "-OO", "-W error", "dev", "perturb", "locale", "home", "fork", "thread")])
ASSUMPTIONS = ["one operating system and one build of Python, NumPy and SciPy",
               "an effect is seen by Python's audit events, by the snapshot and by the file tree of a scratch directory"]
