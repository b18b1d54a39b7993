#!/usr/bin/env python3
"""Builds /verif/seeded/<id> from tools/seeds_*.py: seed_build.py [--tests] [ids...]; confirms the demos (and the tests) in scratch copies."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import importlib  # noqa

mods = sorted(f[:-3] for f in os.listdir(HERE) if f.startswith("seeds_") and f.endswith(".py"))
S = importlib.import_module(mods[0]).S
for m in mods:
    importlib.import_module(m)
PRE = importlib.import_module("seeds_a").PRE
OUT = os.path.join(os.path.dirname(HERE), "seeded")
stable = json.load(open("/opt/vp/BASELINE.json"))
stable = stable.get("stable", stable)
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def one(sid, tests):
    prop, edits, demo, needs, what = S[sid]
    d = os.path.join(OUT, sid)
    tmp = tempfile.mkdtemp(prefix="seed-")
    w = os.path.join(tmp, "r")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, "EDIT matches %d" % s.count(old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE.replace('import sys; sys.path.insert(0, "/repo") if False else None\n', "") + demo + 'print("ok")\n')
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, capture_output=True, text=True)
        subprocess.check_call(["git", "-C", w, "stash", "-q"])
        a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=w, capture_output=True, text=True)
        subprocess.check_call(["git", "-C", w, "stash", "pop", "-q"])
        msg = []
        if a.returncode:
            msg.append("DEMO FAILS CLEAN " + a.stderr[-300:])
        if not b.returncode:
            msg.append("DEMO PASSES PATCHED")
        elif "AssertionError" not in b.stderr:
            msg.append("note: " + b.stderr.strip().splitlines()[-1])
        if tests and not [m for m in msg if m.startswith("DEMO")]:
            ts = open("/opt/vp/test.sh").read().replace("cd /repo", "cd %s; export PYTHONPATH=%s" % (w, w)).replace("tests 4", "tests 2").replace("slow_tests 9", "slow_tests 4")
            if all(e[0].split("/")[1] in ("sciprint.py", "constants.py", "data_splitter.py", "regression.py") for e in edits):
                ts = ts.replace("run slow_tests 4\n", "").replace('"junit:$WORK/*.xml"', '"junit:$WORK/*.xml"')  # not reached by the slow tests
            tf = os.path.join(tmp, "t.sh")
            open(tf, "w").write(ts)
            subprocess.run(["bash", tf, os.path.join(tmp, "o.json")], capture_output=True)
            o = json.load(open(os.path.join(tmp, "o.json")))
            passed = set(o.get("passed", []))
            bad = [t for t in stable if t not in passed and ("slow" not in t or "run slow_tests" in ts)]
            if bad:
                msg.append("TESTS FAIL " + ", ".join(bad)[:300])
        return sid, "; ".join(msg) or "ok"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    tests = "--tests" in sys.argv
    ids = [a for a in sys.argv[1:] if a != "--tests"] or list(S)
    with ThreadPoolExecutor(4 if tests else 8) as ex:
        for sid, r in ex.map(lambda s: one(s, tests), ids):
            print(sid, r, flush=True)
