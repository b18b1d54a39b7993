#!/usr/bin/env python3
"""run_check.py C01 [--tier quick|thorough] [--only HARNESS] [--jobs N] [-v] [--replay FILE]"""
import os
import sys

if hasattr(sys, 'set_int_max_str_digits'):
    sys.set_int_max_str_digits(0)

PY = "/opt/venv/bin/python"
if sys.executable != PY and os.path.exists(PY) and not os.environ.get("SYMX_REEXEC"):
    os.environ["SYMX_REEXEC"] = "1"
    os.execv(PY, [PY, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path = [p for p in sys.path if p not in ("", "/repo")]
import argparse  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    from symx import runner

    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if a.replay:
        import importlib
        import json

        d = json.load(open(a.replay))
        mod = importlib.import_module("checks.%s" % d["property"].lower())
        r = runner.concrete_run(getattr(mod, d["harness"]), d["params"], runner.dec(d["values"]), {})
        print(r)
        return 1 if r[0] == "fail" else 0
    return runner.run_property(a.pid, tier, seed, a.only, a.jobs, a.v)


sys.exit(main())
