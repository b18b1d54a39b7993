"""usage: mutbatch.py FILE [-j N] [--tests] [ids]   FILE defines MUTS = [(id, check, file, old, new), ...]; each mutant is applied to a scratch copy
of /repo and the named check(s) run on it (SYMX_REPO).  Prints caught / MISSED; --tests also runs the test suite on those."""
import ast, os, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
J = 2
if "-j" in a:
    i = a.index("-j"); J = int(a[i + 1]); del a[i:i + 2]
tests = "--tests" in a
a = [x for x in a if x != "--tests"]
ns = {}
exec(open(a[0]).read(), ns)
muts = [m for m in ns["MUTS"] if len(a) == 1 or m[0] in a[1:]]
VC = tempfile.mkdtemp(prefix="mbv-", dir="/tmp")
subprocess.run(["cp", "-a", V, VC + "/v"])


def plain(s):
    """the source without docstrings and comments (mutants may be written against this form)"""
    t = ast.parse(s)
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0].value, "value", None), str):
            n.body = n.body[1:] or [ast.Pass()]
    return ast.unparse(t)


def one(m):
    mid, chk, f, *ed = m
    d = tempfile.mkdtemp(prefix="mb-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"])
        p = d + "/r/mlpaper/" + f
        s = open(p).read()
        if any(old not in s for old in ed[::2]):
            s = plain(s)
        for old, new in zip(ed[::2], ed[1::2]):
            if s.count(old) < 1:
                return "%s NOT FOUND %r" % (mid, old)
            s = s.replace(old, new)
        open(p, "w").write(s)
        r = subprocess.run([sys.executable, "-m", "py_compile", p], capture_output=True, text=True)
        if r.returncode:
            return "%s SYNTAX %s" % (mid, r.stderr[-300:])
        if tests:
            x = subprocess.run("cd %s/r && PYTHONPATH=%s/r timeout 800 /opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --randomly-seed=1 --randomly-dont-reorganize --continue-on-collection-errors --disable-warnings --tb=line 2>&1 | tail -8" % (d, d), shell=True, capture_output=True, text=True).stdout
            return "%s TESTS %s" % (mid, x[-700:])
        out = []
        for k in chk.split():
            vd = tempfile.mkdtemp(prefix="mbw-", dir="/tmp")
            subprocess.run(["cp", "-a", VC + "/v", vd + "/v"])
            t = time.time()
            try:
                x = subprocess.run(["python3", vd + "/v/run_check.py", k, "--jobs", "4"], env=dict(os.environ, SYMX_REPO=d + "/r"), capture_output=True, text=True, timeout=900)
                rc, o = x.returncode, x.stdout + x.stderr
            except subprocess.TimeoutExpired:
                rc, o = -9, "timeout"
            shutil.rmtree(vd)
            v = [l for l in o.splitlines() if l.startswith("  ")]
            out.append("%s %s %ds %s" % (k, "caught" if rc == 1 else "MISSED rc=%d" % rc, time.time() - t, v[0][:170] if rc == 1 and v else o.strip()[-200:]))
        return mid + " " + " || ".join(out)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, muts):
        print(r, flush=True)
shutil.rmtree(VC)
