#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--only KIND]"""
import os
import sys

ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg"}
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)

import argparse  # noqa: E402
import importlib  # noqa: E402
import json  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.realpath(os.environ.get("KV_REPO", "/repo")))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append")
    ap.add_argument("--nproc", type=int)
    a = ap.parse_args()
    from kv import core

    core.check_import()
    module = importlib.import_module("kv.props.%s" % a.prop.lower())
    if a.replay:
        v = json.load(open(a.replay))
        ctx = core.Ctx(a.prop, v["case"]["tier"])
        core.run_case(ctx, module, v["case"]["kind"], v["case"]["seed"])
        for w in ctx.violations:
            print("VIOLATION property=%s replay=%s\n  [%s] %s" % (
                a.prop, a.replay, w["mech"], w["what"]))
            if "traceback" in w["detail"]:
                print(w["detail"]["traceback"])
        sys.exit(1 if ctx.violations else 0)
    sys.exit(core.run_property(a.prop, module, a.tier, a.seed, a.nproc, a.only))


main()
