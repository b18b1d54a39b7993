"""Explores every path of the harnesses of one property and writes the evidence."""
import importlib
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback
import warnings
import contextlib
from fractions import Fraction

import numpy as np

from . import core as C
from .core import PathAbort, Unsupported, Budget, Stats
from .api import SymRun, WarmRun, ConcRun, ConcFail, ConcMismatch, PlayRandom
from . import loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def enc(x):
    if isinstance(x, Fraction):
        return {"q": "%d/%d" % (x.numerator, x.denominator)}
    if isinstance(x, (list, tuple)):
        return [enc(q) for q in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.bool_):
        return bool(x)
    return x


def dec(x):
    if isinstance(x, dict):
        if set(x) == {"q"}:
            return Fraction(x["q"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(q) for q in x]
    return x


def concrete_run(fn, params, values, opts, strict=True, mods=None):
    """('ok'|'fail'|'mismatch', label, detail, n_checks)"""
    warm = values.get("__earlier__")
    if warm is not None:  # an earlier use of the same modules
        w = ConcRun({}, opts)
        mods = w.M
        s, l, d, n = concrete_run(fn, params, warm, opts, False, mods)
        if s == "mismatch":
            return s, l, d, n
    run = ConcRun({k: v for k, v in values.items() if k not in ("__draws__", "__earlier__")}, opts, mods)
    old = C._cur[0]
    C._cur[0] = None
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"), PlayRandom(run, values.get("__draws__", []), strict), contextlib.redirect_stdout(buf):
            warnings.simplefilter("ignore")
            fn(run, **params)
        return "ok", "", "", run.checks
    except ConcFail as e:
        return "fail", e.label, e.detail, run.checks
    except ConcMismatch as e:
        return "mismatch", str(e), "", run.checks
    except PathAbort as e:
        return "mismatch", str(e), "", run.checks
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [("%s:%d" % (f.filename, f.lineno)) for f in tb if f.filename.startswith(loader.REPO + "/")]
        return "fail", "unexpected %s" % type(e).__name__, "%s at %s" % (e, where[-1] if where else "harness " + "%s:%d" % (tb[-1].filename, tb[-1].lineno)), run.checks
    finally:
        C._cur[0] = old


class _Prof:
    def __init__(self):
        self.f = set()

    def __call__(self, frame, ev, arg):
        if ev == "call" and frame.f_code.co_filename.startswith(loader.REPO + "/"):
            n = frame.f_code.co_name
            if n[0] != "<":
                self.f.add("%s:%s" % (os.path.basename(frame.f_code.co_filename), n))


def explore(job):
    """run one task (harness x params); returns a result dict"""
    modname, fname, params, opts, budget = job
    fn = getattr(importlib.import_module(modname), fname)
    t0 = time.time()
    st = Stats()
    name = "%s(%s)" % (fname, ",".join("%s=%s" % kv for kv in params.items()))
    opts = dict(opts)
    opts["deadline"] = t0 + budget
    viol, incon, samples = [], [], []
    replays = [0, 0]  # done, ok
    work = [[]]
    completed = partial = 0
    funcs = set()
    first_wit = None

    def on_cand(label, vals):
        s, l, d, n = concrete_run(fn, params, vals, opts)
        if s == "fail":
            viol.append({"label": label, "concrete": "%s %s" % (l, d), "values": enc(vals), "found_by": "solver"})
        return s

    opts["on_cand"] = on_cand
    max_paths = opts.get("max_paths", 100000)
    _alarm(budget + 25)
    while work:
        if time.time() > opts["deadline"] or st.paths >= max_paths or viol:
            break
        prefix = work.pop()
        c = SymRun(prefix, st, opts)
        C._cur[0] = c
        st.paths += 1
        prof = _Prof() if st.paths <= 2 else None
        ok = False
        try:
            if prof:
                sys.setprofile(prof)
            with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                fn(c, **params)
            ok = True
        except Unsupported as e:
            sys.setprofile(None)
            incon.append(("path", "unsupported: %s" % e))
            partial += 1
            # degrade: one concrete run of this path's inputs on the real code
            _try_witness(c, fn, params, opts, viol, replays, strict=False)
            if not viol and partial <= 3:
                def probe(label, vals):
                    s, l, d, n = concrete_run(fn, params, vals, opts, strict=False)
                    if s == "fail":
                        viol.append({"label": l, "concrete": d, "values": enc(vals), "found_by": "replay of a path witness"})
                    return s
                c.on_cand, c.aborted = probe, None
                try:
                    c._generic(name, C.z3.BoolVal(True), n=6)
                except (PathAbort, Budget):
                    pass
        except (Budget, HardStop) as e:
            sys.setprofile(None)
            _alarm(0)
            incon.append(("path", "time budget"))
            partial += 1
            if replays[0] < 3:  # one concrete run of this path's inputs, with a little more time
                opts["deadline"] = time.time() + 6
                _alarm(20)
                try:
                    _try_witness(c, fn, params, opts, viol, replays, strict=False)
                except (Budget, HardStop):
                    pass
                finally:
                    _alarm(0)
                    opts["deadline"] = 0
        except PathAbort:
            pass
        except RecursionError as e:
            incon.append(("path", "recursion"))
        except Exception as e:
            sys.setprofile(None)
            tb = traceback.extract_tb(e.__traceback__)
            fr = [f for f in tb]
            label = "unexpected %s: %s at %s" % (type(e).__name__, str(e)[:100], " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(fr[-4:])))
            if os.environ.get("SYMX_TB"):
                traceback.print_exc()
            try:
                st.obl += 1
                c.aborted = None
                n0 = len(c.inconclusive)
                c._violated(label, C.z3.BoolVal(True))
            except PathAbort:
                pass
            partial += 1
        finally:
            sys.setprofile(None)
        if prof:
            funcs |= prof.f
        incon += c.inconclusive
        work += c.alts
        if ok:
            completed += 1
            if not c.cands and not viol and (completed <= opts.get("wit", 6) or completed % opts.get("wit_every", 10) == 0) and time.time() < opts["deadline"]:
                v = _try_witness(c, fn, params, opts, viol, replays)
                first_wit = first_wit or v
                if v and len(samples) < 1:
                    samples.append({"harness": name, "path": "".join(("T" if t[1] else "F") if t[0] in "bf" else "%s%s" % t for t in c.trace)[:120], "input": enc({k: q for k, q in v.items() if k != "__draws__"})})
        C._cur[0] = None
    _alarm(0)
    hist = 0
    if not viol and completed and first_wit is not None and time.time() - t0 < 6 * st.paths and opts.get("history", True):
        _alarm(40)
        try:
            hist = _history(fn, params, opts, st, first_wit, viol, name)
        except HardStop:
            pass
        finally:
            _alarm(0)
            C._cur[0] = None
    left = len(work)
    if left and not viol:
        incon.append(("exploration", "%d prefixes unexplored (budget)" % left))
    return dict(
        name=name, fname=fname, params=params, paths=st.paths, completed=completed, partial=partial, unexplored=left, decisions=st.decisions, queries=st.queries, solver_s=st.solver_s,
        unknown=st.unknown, obl=st.obl, obl_ok=st.obl_ok, obl_triv=st.obl_triv, incon=incon[:20], n_incon=len(incon), viol=viol, replays=replays,
        hist=hist, samples=samples, funcs=sorted(funcs), wall=time.time() - t0, src=dict(loader.SRC_FILES), cross=getattr(st, "cross", [0, 0, 0]),
    )


def _history(fn, params, opts, st, warm, viol, name):
    """a few paths again, in modules already used once with other inputs (state kept between calls must not show); returns the number of paths"""
    import random

    rng = random.Random(name)
    n, done, work = 0, 0, [[]]
    opts = dict(opts, deadline=time.time() + 8)

    def on_cand(label, vals):
        vals = dict(vals, __earlier__=warm)
        s, l, d, _ = concrete_run(fn, params, vals, opts)
        if s == "fail":
            viol.append({"label": label + " (after an earlier call)", "concrete": "%s %s" % (l, d), "values": enc(vals), "found_by": "solver"})
        return s

    opts["on_cand"] = on_cand
    while work and n < opts.get("hist", 4) and not viol and time.time() < opts["deadline"]:
        prefix = work.pop(rng.randrange(len(work)))
        n += 1
        c = SymRun(prefix, st, opts)
        w = WarmRun(warm, opts, c.M)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                C._cur[0] = w
                fn(w, **params)
        except (PathAbort, Exception):
            pass
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                C._cur[0] = c
                fn(c, **params)
            done += 1
        except (PathAbort, RecursionError):
            pass
        except Exception as e:
            try:
                st.obl += 1
                c.aborted = None
                c._violated("unexpected %s: %s" % (type(e).__name__, str(e)[:100]), C.z3.BoolVal(True))
            except PathAbort:
                pass
        work += c.alts
    return done


def _try_witness(c, fn, params, opts, viol, replays, strict=True):
    try:
        c.aborted = None
        v = c.witness()
    except PathAbort:
        return None
    if v is None:
        return None
    s, l, d, n = concrete_run(fn, params, v, opts, strict=strict)
    if s == "mismatch":
        return None
    replays[0] += 1
    if s == "ok":
        replays[1] += 1
    else:
        viol.append({"label": l, "concrete": d, "values": enc(v), "found_by": "replay of a path witness"})
    return v


class HardStop(BaseException):
    """a task far over its time budget (no solver call in between)"""


def _ring(*_):
    raise HardStop()


def _alarm(t):
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGALRM, _ring)
        signal.setitimer(signal.ITIMER_REAL, t, 5 if t else 0)


def _safe_explore(job):
    try:
        return explore(job)
    except HardStop:
        _alarm(0)
        name = "%s(%s)" % (job[1], ",".join("%s=%s" % kv for kv in job[2].items()))
        return lost(name, job, "time budget")
    except BaseException as e:  # an error of the machinery
        return {"name": "%s%s" % (job[1], job[2]), "fname": job[1], "error": "".join(traceback.format_exception(e))[-3000:]}


def lost(name, job, why):
    return dict(name=name, fname=job[1], params=job[2], paths=0, completed=0, partial=1, unexplored=1, decisions=0, queries=0, solver_s=0.0, unknown=0, obl=0, obl_ok=0, obl_triv=0,
                incon=[("exploration", why)], n_incon=1, viol=[], replays=[0, 0], hist=0, samples=[], funcs=[], wall=0.0, src={}, cross=[0, 0, 0])


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def run_property(pid, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    mod = importlib.import_module("checks.%s" % pid.lower())
    tasks = mod.tasks(tier)
    joblist = []
    base = dict(q_ms=1500, fb_ms=3000, seed=seed)
    if tier == "thorough":
        base.update(q_ms=8000, fb_ms=20000, cross=30)
    for fname, params, opts in tasks:
        if only and only not in fname:
            continue
        o = dict(base)
        o.update(opts or {})
        b = o.pop("budget", 60 if tier == "quick" else 900)
        joblist.append(("checks.%s" % pid.lower(), fname, params, o, b))
    nproc = jobs or min(8, os.cpu_count() or 4, max(1, len(joblist)))
    res = []
    if nproc == 1:
        for j in joblist:
            res.append(_safe_explore(j))
            if verbose:
                show(res[-1])
    else:
        ctxm = mp.get_context("fork")
        with ctxm.Pool(nproc, maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_safe_explore, joblist, chunksize=1)
            total = 700 if tier == "quick" else 6 * 3600
            while len(res) < len(joblist):
                try:
                    r = it.next(timeout=max(1, t0 + total - time.time()))
                except mp.TimeoutError:
                    res.append(lost("rest", ("", "rest", {}), "%d instances not finished after %d s" % (len(joblist) - len(res), total)))
                    pool.terminate()
                    break
                res.append(r)
                if verbose:
                    show(r)
                if r.get("viol") and not load_known(pid):
                    pool.terminate()
                    break
    return finish(pid, tier, seed, mod, res, len(joblist), t0)


def show(r):
    if "error" in r:
        print("ERR", r["name"], r["error"])
        return
    print("%-70s paths %4d done %4d part %d left %d q %5d unk %d obl %d/%d (triv %d) rep %s hist %d  %.1fs solver %.1fs" % (r["name"][:70], r["paths"], r["completed"], r["partial"], r["unexplored"], r["queries"], r["unknown"], r["obl_ok"], r["obl"], r["obl_triv"], r["replays"], r["hist"], r["wall"], r["solver_s"]))
    for i in r["incon"][:4]:
        print("    INCON", i)
    for v in r["viol"][:3]:
        print("    VIOL", v["label"], "|", v["concrete"], v["found_by"], json.dumps(v["values"])[:600])
    sys.stdout.flush()


def finish(pid, tier, seed, mod, res, njobs, t0):
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev_dir, "replays"), exist_ok=True)
    good = [r for r in res if "error" not in r]
    errs = [r for r in res if "error" in r]
    known = load_known(pid)
    viols = []
    for r in good:
        for v in r["viol"]:
            viols.append((r, v))
    new = []
    kn_hit = set()
    for r, v in viols:
        hit = [k for k in known if k.split(" :: ")[0] in ("%s %s" % (r["name"], v["label"]))]
        if hit:
            kn_hit.update(hit)
        else:
            new.append((r, v))
    decided = [r for r in good if r["completed"] > 0 and r["obl_ok"] > 0]
    incon = sum(r["n_incon"] for r in good)
    srcs = {}
    for r in good:
        srcs.update(r["src"])
    cov = {
        "states": sum(r["paths"] for r in good),
        "transitions": sum(r["decisions"] for r in good),
        "traces_validated_against_impl": sum(r["replays"][1] for r in good),
        "samples": [s for r in good for s in r["samples"]][:6] or [{"note": "no completed path"}],
        "technique": "symbolic execution of /repo's current source, obligations decided by z3",
        "harness_instances": njobs,
        "harness_instances_fully_explored": sum(1 for r in good if not r["unexplored"] and not r["partial"] and not r["n_incon"] and r["completed"]),
        "paths_completed": sum(r["completed"] for r in good),
        "obligations": sum(r["obl"] for r in good),
        "obligations_discharged": sum(r["obl_ok"] for r in good),
        "obligations_syntactically_true": sum(r["obl_triv"] for r in good),
        "solver_queries": sum(r["queries"] for r in good),
        "solver_unknown": sum(r["unknown"] for r in good),
        "solver_s": round(sum(r["solver_s"] for r in good), 2),
        "inconclusive": incon,
        "inconclusive_reasons": sorted({"%s: %s" % (r["name"], i) for r in good for i in r["incon"]})[:12],
        "functions_encoded": sorted({f for r in good for f in r["funcs"]}),
        "source_sha256": {os.path.relpath(k, "/repo"): v[:16] for k, v in sorted(srcs.items())},
        "bounds": getattr(mod, "BOUNDS", ""),
        "instances": [r["name"] for r in sorted(good, key=lambda r: r["name"])][:60],
        "paths_after_an_earlier_call": sum(r["hist"] for r in good),
        "reachability": "every harness instance counted as explored has at least one feasible completed path",
        "cvc5_crosscheck": {"asked": sum(r["cross"][0] for r in good), "agree": sum(r["cross"][1] for r in good), "disagree": sum(r["cross"][2] for r in good)},
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(os.path.join(ev_dir, "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(kn_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    for i, (r, v) in enumerate(new[:3]):
        path = os.path.join(ev_dir, "replays", "%s-%d.json" % (pid, i))
        with open(path, "w") as f:
            json.dump({"property": pid, "harness": r["fname"], "instance": r["name"], "params": r.get("params"), "label": v["label"], "concrete": v["concrete"], "found_by": v["found_by"], "values": v["values"]}, f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  %s: %s | %s (%s)" % (r["name"], v["label"], v["concrete"], v["found_by"]))
    for r in errs:
        print("ERROR", r["name"], r["error"], file=sys.stderr)
    if new:
        return 1
    print("%s: %d paths, %d/%d obligations discharged, %d inconclusive, %d replays, %.1fs" % (pid, cov["states"], cov["obligations_discharged"], cov["obligations"], incon, cov["traces_validated_against_impl"], time.time() - t0))
    if not decided and cov["traces_validated_against_impl"]:
        print("INCONCLUSIVE: the solver decided no obligation of %s on this source; %d concrete replays on the real code held" % (pid, cov["traces_validated_against_impl"]))
        return 0
    if not decided:
        print("nothing decided", file=sys.stderr)
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "float64 arithmetic is modelled by real arithmetic (infinities and NaN are explicit); every reported violation is replayed in floats on the real code",
    "numpy/scipy/pandas/joblib behave as documented (models in symx/, one witness per explored path family is replayed against the real libraries)",
]
