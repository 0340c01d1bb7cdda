"""Jobs for P25: run the same operations in this process and in a child whose surroundings differ."""

import os
import pickle
import sys

import numpy as np

# what the child watches (audit events that are effects on the world outside)
EFFECTS = ("os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.chmod", "os.chown", "os.link", "os.symlink",
           "os.truncate", "os.utime", "os.putenv", "os.unsetenv", "os.system", "os.exec", "os.posix_spawn", "os.spawn",
           "os.fork", "os.forkpty", "os.kill", "os.killpg", "os.chdir", "os.fchdir", "os.chflags", "os.setxattr",
           "subprocess.Popen", "socket.", "shutil.", "tempfile.", "urllib.Request", "http.", "ftplib.", "smtplib.",
           "sqlite3.", "webbrowser.", "signal.", "syslog.", "fcntl.", "resource.", "mmap.", "pty.spawn", "gc.freeze",
           "sys.setprofile", "sys.settrace", "sys.addaudithook", "threading.setprofile", "code.__new__x")


def run(job):
    """Every result of one job, as plain arrays."""
    import pykalman
    import pykalman.datasets
    import pykalman.sqrt

    kind = job["kind"]
    out = {}
    if kind == "robot":
        d = pykalman.datasets.load_robot()
        for k in sorted(d):
            v = d[k]
            if isinstance(v, str):
                out[k] = np.array([len(v), sum(map(ord, v))], float)
            else:
                out[k] = np.array(np.ma.filled(v, -7.0) if isinstance(v, np.ma.MaskedArray) else v, float)
        return out
    if kind == "refuse":
        try:
            kf = cls_of(job["cls"])(**job["kw"])
            r = getattr(kf, job["op"])(*job["args"], **job["opkw"])
        except Exception:
            return {"refused": np.ones(1)}
        return {"refused": np.zeros(1), "got": np.array(str(type(r)).encode().__len__(), float)}
    if kind == "odd":
        # noise-free, singular or contradictory: whatever the answer, there are no effects
        import warnings

        err = np.seterr(all="ignore")
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return run(dict(job, kind="ops"))
        except (np.linalg.LinAlgError, ValueError, ArithmeticError):
            return {}
        finally:
            np.seterr(**err)
    kf = cls_of(job["cls"])(**job["kw"])
    Z = job["Z"]
    if job["em"] is not None:
        kf.em(Z, n_iter=job["n_iter"], em_vars=job["em"])
    m, c = kf.filter(Z)
    out["filter.m"], out["filter.c"] = np.ma.getdata(m), c
    out["smooth.m"], out["smooth.c"] = [np.ma.getdata(v) for v in kf.smooth(Z)]
    if hasattr(kf, "loglikelihood"):
        out["loglikelihood"] = kf.loglikelihood(Z)
    s, o = kf.sample(min(5, len(Z)), random_state=job["seed"])
    out["sample.s"], out["sample.o"] = np.ma.getdata(s), np.ma.getdata(o)
    st = job["state"]
    for i, z in enumerate((job["z"], None)):
        m, c = kf.filter_update(st[0].copy(), st[1].copy(), z, **job["ukw"])
        out["update%d.m" % i], out["update%d.c" % i] = np.ma.getdata(m), c
    return {k: np.array(v, float) for k, v in out.items()}


def cls_of(name):
    from kv import models

    return models.cls_of(name)


def world():
    """What a library has no business to change."""
    import atexit
    import decimal
    import gc
    import locale
    import logging
    import random
    import signal
    import threading
    import warnings

    import numpy.linalg
    import numpy.ma
    import numpy.random
    import scipy
    import scipy.linalg

    um = os.umask(0)
    os.umask(um)
    w = {
        "environment": dict(os.environ), "working directory": os.getcwd(), "umask": um,
        "signal handlers": [str(signal.getsignal(s)) for s in sorted(signal.valid_signals())],
        "sys.path": list(sys.path), "warning filters": list(map(str, warnings.filters)),
        "warning display": id(warnings.showwarning), "numpy error settings": np.geterr(),
        "numpy error callback": id(np.geterrcall()), "print options": str(np.get_printoptions()),
        "locale": locale.setlocale(locale.LC_ALL), "threads": sorted(t.name for t in threading.enumerate()),
        "gc": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(), "random": str(random.getstate()),
        "numpy random": str(np.random.get_state()[1].tolist()) + str(np.random.get_state()[2:]),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr), id(threading.excepthook)),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
        "decimal context": str(decimal.getcontext()),
        "open files": sorted(os.listdir("/proc/self/fd")),
        "meta path": [str(type(f)) for f in sys.meta_path], "path hooks": len(sys.path_hooks),
        "exit callbacks": atexit._ncallbacks(), "builtins": sorted((k, id(v)) for k, v in vars(__builtins__).items() if k != "_")
        if not isinstance(__builtins__, dict) else sorted((k, id(v)) for k, v in __builtins__.items() if k != "_"),
    }
    for mod in (np, np.linalg, np.ma, np.random, scipy.linalg):
        w["contents of " + mod.__name__] = sorted((k, id(v)) for k, v in vars(mod).items() if callable(v)
                                                 and not isinstance(v, type(sys)))
    return w


def child():
    spec = pickle.load(sys.stdin.buffer)
    import gc
    import importlib
    import threading
    import traceback
    import warnings

    import numpy.testing  # noqa: F401
    import scipy.io  # noqa: F401
    import scipy.linalg  # noqa: F401
    import scipy.stats  # noqa: F401

    from kv import models, pickles  # noqa: F401

    s = spec["inside"]
    np.seterr(**s["err"])
    np.random.seed(s["npseed"])
    if s["gc"] == "off":
        gc.disable()
    elif s["gc"] == "often":
        gc.set_threshold(1, 1, 1)
    if s["switch"]:
        sys.setswitchinterval(1e-5)
    if s["print"]:
        np.set_printoptions(precision=1, threshold=2, suppress=True, floatmode="fixed")
    if s["errors"]:
        warnings.simplefilter("error")
    rep = {"results": [], "effects": [], "world": [], "raised": None, "warned": []}
    on = [False]
    lib = spec["lib"]

    def hook(event, args):
        if not on[0]:
            return
        bad = event.startswith(EFFECTS)
        if event == "open":
            mode, flags = args[1], args[2]
            bad = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (
                mode is None and isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if bad:
            f = sys._getframe()
            while f is not None and not f.f_code.co_filename.startswith(lib):
                f = f.f_back
            if f is not None:
                on[0] = False
                rep["effects"].append("%s%r from %s" % (event, tuple(args)[:3], f.f_code.co_name))
                on[0] = True

    sys.addaudithook(hook)

    def work():
        try:
            for m in spec["order"]:
                importlib.import_module(m)
            rep["results"] = [run(j) for j in jobs()]
        except BaseException as e:  # noqa: BLE001
            rep["raised"] = "%r\n%s" % (e, traceback.format_exc()[-1500:])

    def jobs():
        # the functions and arrays arrive after the imports, in the order chosen
        return pickle.loads(spec["jobs"])

    sys.stdout.flush()
    before = world()
    on[0] = True
    if s["where"] == "thread":
        t = threading.Thread(target=work)
        t.start()
        t.join()
    elif s["where"] == "fork":
        on[0] = False
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            before = world()
            on[0] = True
            work()
            on[0] = False
            after = world()
            rep["world"] = diff(before, after)
            with os.fdopen(w, "wb") as fo:
                pickle.dump(rep, fo)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as fi:
            rep = pickle.load(fi)
        os.waitpid(pid, 0)
    else:
        work()
    on[0] = False
    if s["where"] != "fork":
        rep["world"] = diff(before, world())
    with open(spec["out"], "wb") as fo:
        pickle.dump(rep, fo)


def diff(a, b):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], list):
                d = [x for x in b[k] if x not in a[k]][:3] + [x for x in a[k] if x not in b[k]][:3]
            elif isinstance(a[k], dict):
                d = [x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)]
            else:
                d = (str(a[k])[:60], str(b[k])[:60])
            out.append("%s (%s)" % (k, str(d)[:200]))
    return out
