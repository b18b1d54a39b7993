"""C05 regression losses, prediction tables, loss tables and baseline."""
import math
import shutil
import tempfile

import numpy as np
import pandas as pd
from checks.common import mcols

BOUNDS = "losses: 1..3 rows with symbolic targets, means and deviations, a non-finite value or non-positive deviation at any position; tables: 1..3 methods, 1..3 rows, symbolic means, deviations and min_std; baseline: 2..4 symbolic training targets; checkpoint directory reused for other data (labels, inputs or method changed); integer targets; values offset by 1e8..1e10; 300 rows x 2 methods and 2 rows x 12 methods with a few symbolic entries; prediction tables of 1200 test points or 12 methods with a few symbolic entries; baseline on 8..32 bit integer targets"
ASSUMPTIONS = ["scipy.stats.norm.logpdf is the Gaussian log density", "joblib.Memory caches on function and arguments as documented (modelled; replayed with the real one in a scratch directory)"]


def nll(c, y, m, s):
    d = y - m
    return c.div(d * d, 2 * s * s) + c.log(s) + c.num(math.log(2 * math.pi) / 2)


def close(c, a, b, label):
    c.eq(a, b, label, 1e-6)


def vals(c, R, tag=""):
    y, m = c.vec("y" + tag, R, -100, 100), c.vec("m" + tag, R, -100, 100)
    s = c.vec("s" + tag, R, 0, 100, lo_open=True)
    return y, m, s


def losses(c, R):
    rg = c.M.regression
    y, m, s = vals(c, R)
    Y, Mu, Sd = c.arr(y), c.arr(m), c.arr(s)
    snap = c.snapshot(Y) + c.snapshot(Mu) + c.snapshot(Sd)
    sq, ab, ll = [c.cells(f(Y, Mu, Sd)) for f in (rg.square_loss, rg.abs_loss, rg.log_loss)]
    c.same([len(sq), len(ab), len(ll)], [R] * 3, "one loss per sample")
    for i in range(R):
        d = y[i] - m[i]
        c.eq(sq[i], d * d, "square loss %d" % i)
        c.eq(ab[i], c.Abs(d), "absolute loss %d" % i)
        close(c, ll[i], nll(c, y[i], m[i], s[i]), "log loss %d" % i)
    c.unchanged(c.cells(Y) + c.cells(Mu) + c.cells(Sd), snap, "inputs")


def rejects(c, R):
    rg = c.M.regression
    y, m, s = vals(c, R)
    k = c.pick("k", range(R))
    which = c.pick("which", ["y", "mu", "std", "nonpos"])
    if which == "nonpos":
        s[k] = c.real("bad", -100, 0)
    else:
        {"y": y, "mu": m, "std": s}[which][k] = c.pick("v", [c.nan, c.inf, -c.inf])
    for n in ("square_loss", "abs_loss", "log_loss"):
        c.rejects(lambda: getattr(rg, n)(c.arr(y), c.arr(m), c.arr(s)), "%s: bad %s" % (n, which))


def offset(c, big):
    """targets and means far from zero: the difference keeps its digits (exact in floats)"""
    rg = c.M.regression
    d = c.real("d", -4, 4)
    k, j = c.pick("k", [-3, 1, 5]), c.pick("j", [1, 3])
    if c.concrete:
        c.assume(float(d * 16).is_integer())
    y, m, s = [big + c.frac(k, 4), big - c.frac(1, 2)], [big + d, big], [c.frac(j, 2), c.num(1)]
    sq, ab, ll = [c.cells(f(c.arr(y), c.arr(m), c.arr(s))) for f in (rg.square_loss, rg.abs_loss, rg.log_loss)]
    for i, e in enumerate((c.frac(k, 4) - d, c.frac(-1, 2))):
        c.eq(sq[i], e * e, "square loss %d (large values)" % i)
        c.eq(ab[i], c.Abs(e), "absolute loss %d (large values)" % i)
        close(c, ll[i], nll(c, e, 0, s[i]), "log loss %d (large values)" % i)


def ints(c, R, yt, mt):
    """integer targets and predictions"""
    rg = c.M.regression
    y = np.array([3, -2, 7, 250][:R], dtype=yt)
    mi = {"b": [4, -5, 7, 1][:R], "a": [0, 3, -9, 2][:R]}
    sd = {m: c.vec("sd_" + m, R, 0, 100, lo_open=True) for m in mi}
    if mt == "real":
        mi = {m: c.vec("mu_" + m, R, -100, 100) for m in mi}
    cols = [("b", "mu"), ("b", "std"), ("a", "mu"), ("a", "std")]
    T = c.frame([[mi[m][i] if k == "mu" else sd[m][i] for m, k in cols] for i in range(R)], index=list(range(R)), columns=mcols(cols, ["method", "moment"]))
    F = {"stub": lambda y, mu, std: 100.0 * y + 10 * mu + std, "MAE": rg.abs_loss, "MSE": rg.square_loss, "NLL": rg.log_loss}
    out = rg.loss_table(T, y, F)
    for m in mi:
        for i in range(R):
            a, b, s = int(y[i]), mi[m][i], sd[m][i]
            d = a - b
            for k, e in (("MSE", d * d), ("MAE", c.Abs(d)), ("stub", 100 * a + 10 * b + s), ("NLL", nll(c, a, b, s))):
                c.eq(c.cells(out[(k, m)])[i], e, "%s of %s, row %d (integer targets)" % (k, m, i), 1e-6)


def many(c, R, nm):
    """many rows and methods, a few symbolic"""
    rg = c.M.regression
    ms = ["m%d" % i for i in range(nm)][::-1]
    y = [c.frac((i * 7) % 23, 2) for i in range(R)]
    mu = {m: [c.frac((i * 5 + j) % 31, 4) for i in range(R)] for j, m in enumerate(ms)}
    sd = {m: [c.frac(1 + (i * 3 + j) % 17, 8) for i in range(R)] for j, m in enumerate(ms)}
    for i in {0, R // 2, R - 1}:
        y[i] = c.real("y%d" % i, -100, 100)
        mu[ms[-1]][i] = c.real("mu%d" % i, -100, 100)
        sd[ms[0]][i] = c.real("sd%d" % i, 0, 100, lo_open=True)
    cols = [(m, k) for m in ms for k in ("mu", "std")]
    idx = list(range(R))[::-1]
    T = c.frame([[(mu if k == "mu" else sd)[m][i] for m, k in cols] for i in range(R)], index=idx, columns=mcols(cols, ["method", "moment"]))
    out = rg.loss_table(T, c.arr(y), {"MAE": rg.abs_loss, "stub": lambda y, mu, std: 100 * y + 10 * mu + std, "MSE": rg.square_loss})
    c.same(list(out.index), idx, "row labels and order")
    for m in ms:
        got = {k: c.cells(out[(k, m)]) for k in ("MAE", "stub", "MSE")}
        for i in range(R):
            d = y[i] - mu[m][i]
            for k, e in (("MSE", d * d), ("MAE", c.Abs(d)), ("stub", 100 * y[i] + 10 * mu[m][i] + sd[m][i])):
                c.eq(got[k][i], e, "%s of %s, row %d (many)" % (k, m, i))


IDX = {"int": [7, 3, 5], "str": ["c", "a", "b"], "dup": ["u", "v", "u"]}


def exact(c, R, methods):
    """whatever a metric returns is stored unaltered"""
    rg = c.M.regression
    d = c.real("d", -4, 4)
    cols = [(m, k) for m in methods for k in ("mu", "std")]
    T = c.frame([[c.num(1)] * len(cols) for i in range(R)], columns=mcols(cols, ["method", "moment"]))
    vals = [c.div(c.num(7), 3), c.div(c.num(123456789), 7), c.div(c.num(1), 3 * 2 ** 60)][:R]
    out = rg.loss_table(T, c.arr([d] * R), {"f": lambda a, b, s: c.arr(vals), "g": lambda a, b, s: a * 1})
    for m in methods:
        c.eqs(c.cells(out[("f", m)]), vals, "stored as returned", 0)
        c.eqs(c.cells(out[("g", m)]), [d] * R, "stored as returned", 0)


def table(c, methods, R, order="ms", idx="int", drop=False):
    rg = c.M.regression
    y = c.vec("y", R, -100, 100)
    mu = {m: c.vec("mu_" + m, R, -100, 100) for m in methods}
    sd = {m: c.vec("sd_" + m, R, 0, 100, lo_open=True) for m in methods}
    cols = {"ms": [(m, k) for m in methods for k in ("mu", "std")], "sm": [(m, k) for m in methods for k in ("std", "mu")], "inter": [(m, k) for k in ("std", "mu") for m in methods]}[order]
    T = c.frame([[(mu if k == "mu" else sd)[m][i] for m, k in cols] for i in range(R)], index=IDX[idx][:R], columns=mcols(cols, ["method", "moment"], c.pick("dropped", [(("gone", "mu"),), ((methods[0], "skew"),)]) if drop else ()))
    Y = c.arr(y)
    snap, ys = c.snapshot(T), c.snapshot(Y)
    F = {"NLL": rg.log_loss, "stub": lambda y, mu, std: 100 * y + 10 * mu + std, "MAE": rg.abs_loss, "MSE": rg.square_loss}
    out = rg.loss_table(T, Y, F)
    c.same(sorted(tuple(q) for q in out.columns), sorted((a, b) for a in F for b in methods), "columns are metric x method")
    c.same(list(out.index), IDX[idx][:R], "row labels and order")
    for m in methods:
        for i in range(R):
            a, b, s = y[i], mu[m][i], sd[m][i]
            d = a - b
            for k, e in (("MSE", d * d), ("MAE", c.Abs(d)), ("stub", 100 * a + 10 * b + s), ("NLL", nll(c, a, b, s))):
                c.eq(c.cells(out[(k, m)])[i], e, "%s of %s, row %d" % (k, m, i), 1e-6)
    c.unchanged(T, snap, "table")
    c.unchanged(Y, ys, "targets")


REC = {}


class WithStd:
    def __init__(self, tag):
        self.tag = tag

    def fit(self, X, y):
        REC["fit"].append((self.tag, np.array(X, copy=True), y))
        self.offset = int(np.asarray(X).reshape(-1)[0])

    def _get(self, X, what):
        return [REC[what][self.tag, int(r[0])] for r in np.asarray(X)]

    def predict(self, X, return_std=False):
        c = REC["c"]
        if not return_std:
            return c.arr(self._get(X, "mu"))
        return c.arr(self._get(X, "mu")), c.arr(self._get(X, "sd"))


class NoStd(WithStd):
    def predict(self, X):
        c = REC["c"]
        return c.arr(self._get(X, "mu"))


class IntStdless(NoStd):
    def predict(self, X):
        return np.array([int(r[0]) * 10 for r in np.asarray(X)])


KIND = {"std": WithStd, "nostd": NoStd, "int": IntStdless}


def reset(c):
    REC.clear()
    REC.update(c=c, fit=[], mu={}, sd={})


def fill(c, spec, ids, tag="", unit=1):
    for m, k in spec:
        for t in ids:
            REC["mu"][m, t] = c.real("mu%s_%s_%d" % (tag, m, t), -100, 100) * unit
            REC["sd"][m, t] = c.real("sd%s_%s_%d" % (tag, m, t), 0, 100) * unit


def checktbl(c, tbl, spec, ids, f, unit=1):
    c.same(sorted(tuple(q) for q in tbl.columns), sorted((m, k) for m, _ in spec for k in ("mu", "std")), "columns are method x moment")
    c.same(list(tbl.index), list(range(len(ids))), "row labels")
    for m, kind in spec:
        mu, sd = c.cells(tbl[(m, "mu")]), c.cells(tbl[(m, "std")])
        for i, t in enumerate(ids):
            c.eq(c.div(mu[i], unit), c.div(10 * t if kind == "int" else REC["mu"][m, t], unit), "mean of %s at test point %d" % (m, i))
            s = REC["sd"][m, t] if kind == "std" else c.num(1)
            c.eq(c.div(sd[i], unit), c.div(c.Max([s, f]), unit), "floored deviation of %s at test point %d" % (m, i))


def pred(c, spec, ids, floor, k=0):
    rg = c.M.regression
    reset(c)
    unit = c.frac(1, 2 ** k)
    fill(c, spec, ids, unit=unit)
    X_train = np.array([[100], [101], [102]])
    y_train = c.arr(c.vec("yt", 3))
    X_test = np.array([[t] for t in ids])
    kw = {}
    f = c.num(0)
    if floor:
        f = c.real("f", 0, 10) * unit
        kw["min_std"] = f
    tbl = rg.get_gauss_pred(X_train, y_train, X_test, {m: KIND[k](m) for m, k in spec}, **kw)
    checktbl(c, tbl, spec, ids, f, unit)
    c.same(sorted(t for t, _, _ in REC["fit"]), sorted(m for m, _ in spec), "every method fitted exactly once")
    for t, X, y in REC["fit"]:
        c.same(X.tolist(), X_train.tolist(), "fitted on the training inputs")
        c.eqs(c.cells(y), c.cells(y_train), "fitted on the training targets")


def large_pred(c, nm, n):
    """many methods or test points; a few symbolic"""
    rg = c.M.regression
    reset(c)
    ms = ["m%d" % i for i in range(nm)][::-1]
    spec = [(m, ["std", "nostd"][i % 2]) for i, m in enumerate(ms)]
    ids = [(7 * i + 3) % (n + 1 + (n % 7 == 6)) for i in range(n)]
    assert len(set(ids)) == n
    for i, m in enumerate(ms):
        for t in ids:
            REC["mu"][m, t], REC["sd"][m, t] = c.frac((5 * t + i) % 31 - 12, 4), c.frac((3 * t + i) % 17, 8)
    for j, (m, t) in enumerate([(ms[0], ids[0]), (ms[-1], ids[-1]), (ms[0], ids[n // 2])]):
        REC["mu"][m, t], REC["sd"][m, t] = c.real("mu%d" % j, -100, 100), c.real("sd%d" % j, 0, 100)
    f = c.num(1)
    tbl = rg.get_gauss_pred(np.array([[100], [101]]), np.array([1, 2]), np.array([[t] for t in ids]), {m: KIND[k](m) for m, k in spec}, min_std=f)
    checktbl(c, tbl, spec, ids, f)


def checkpoint(c, change):
    rg = c.M.regression
    reset(c)
    spec = [("b", "std"), ("a", "nostd")]
    d = tempfile.mkdtemp(prefix="c05_")
    try:
        X_train, y_train = np.array([[100], [101]]), np.array([1, 2])
        fill(c, spec, [1, 2])
        ids, X_test = [1, 2], np.array([[1], [2]])
        f = c.real("f", 0, 1)
        tbl = rg.get_gauss_pred(X_train, y_train, X_test, {m: KIND[k](m) for m, k in spec}, min_std=f, checkpointdir=d)
        checktbl(c, tbl, spec, ids, f)
        if change == "test":
            fill(c, spec, [7, 8], "n")
            ids, X_test = [7, 8], np.array([[7], [8]])
        elif change == "order":
            ids, X_test = [2, 1], np.array([[2], [1]])
        elif change == "floor":
            f = c.real("f2", 0, 10)
        elif change == "train":
            X_train, y_train = np.array([[200], [201]]), np.array([2, 1])
            fill(c, spec, [1, 2], "n")
        elif change in ("labels", "inputs"):
            if change == "labels":
                y_train = np.array([2, 1])
            else:
                X_train = np.array([[100], [201]])
            fill(c, spec, [1, 2], "n")
        objs = {m: KIND[k](m) for m, k in spec}
        if change == "method":  # same name, another estimator
            fill(c, [(m + "2", k) for m, k in spec], [1, 2], "n")
            objs = {m: KIND[k](m + "2") for m, k in spec}
        tbl = rg.get_gauss_pred(X_train, y_train, X_test, objs, min_std=f, checkpointdir=d)
        if change == "method":
            for m, _ in spec:
                for t in ids:
                    REC["mu"][m, t], REC["sd"][m, t] = REC["mu"][m + "2", t], REC["sd"][m + "2", t]
        checktbl(c, tbl, spec, ids, f)
    finally:
        shutil.rmtree(d)


def noise(c, N):
    rg = c.M.regression
    y = c.vec("y", N)
    nt = c.pick("nt", [1, 2, 3])
    est = rg.JustNoise()
    est.fit(np.zeros((N, 1)), c.arr(y))
    mu, sd = est.predict(np.zeros((nt, 1)), return_std=True)
    m = c.div(c.Sum(y), N)
    v = c.div(c.Sum([(a - m) * (a - m) for a in y]), N)
    c.eqs(c.cells(mu), [m] * nt, "baseline mean")
    c.eqs([s * s for s in c.cells(sd)], [v] * nt, "baseline population variance")
    for s in c.cells(sd):
        c.le(0, s, "deviation non-negative")


def refit(c, N):
    """fitting the same object again forgets the earlier data"""
    rg = c.M.regression
    est = rg.JustNoise()
    for t in range(2):
        y = c.vec("y%d_" % t, N + t)
        est.fit(np.zeros((N + t, 1)), c.arr(y))
        mu, sd = est.predict(np.zeros((2, 1)), return_std=True)
        m = c.div(c.Sum(y), N + t)
        v = c.div(c.Sum([(a - m) * (a - m) for a in y]), N + t)
        c.eqs(c.cells(mu), [m] * 2, "baseline mean, fitted %d times" % (t + 1))
        c.eqs([s * s for s in c.cells(sd)], [v] * 2, "baseline population variance, fitted %d times" % (t + 1))
    other = rg.JustNoise()
    other.fit(np.zeros((2, 1)), c.arr([y[0] + 3, y[0] + 7]))
    mu, sd = other.predict(np.zeros((1, 1)), return_std=True)
    c.eqs(c.cells(mu) + c.cells(sd), [y[0] + 5, c.num(2)], "second baseline")
    mu, sd = est.predict(np.zeros((2, 1)), return_std=True)
    c.eqs(c.cells(mu), [m] * 2, "first baseline mean after fitting the second")
    c.eqs([s * s for s in c.cells(sd)], [v] * 2, "first baseline variance after fitting the second")


def noise_data(c, data, big, dtype="int64"):
    """training targets far from zero, of integer type, or many of them"""
    rg = c.M.regression
    d = c.real("d", -4, 4)
    if c.concrete:
        c.assume(float(d * 16).is_integer())
    data = [c.num(v) for v in data]
    ints = big is None
    if ints:
        y = np.array([int(v) for v in data], dtype=dtype)
        big = 0
    else:
        data[0] = d
        y = c.arr([v + big for v in data])
    N = len(data)
    est = rg.JustNoise()
    est.fit(np.zeros((N, 1)), y)
    mu, sd = est.predict(np.zeros((2, 1)), return_std=True)
    m = c.div(c.Sum(data), N)
    v = c.div(c.Sum([(a - m) * (a - m) for a in data]), N)
    c.eqs(c.cells(mu), [m + big] * 2, "baseline mean (large values)")
    c.eqs([s * s for s in c.cells(sd)], [v] * 2, "baseline population variance (large values)", 1e-6)


def tail(c):
    """targets far in the tail"""
    rg = c.M.regression
    z = c.real("z", 50, 5000)
    s = c.pick("s", [c.frac(1, 8), c.num(1), c.num(64)])
    sg = c.pick("sg", [1, -1])
    ll = c.cells(rg.log_loss(c.arr([sg * z * s, c.num(0)]), c.arr([c.num(0), sg * z * s]), c.arr([s, s])))
    for v in ll:
        close(c, v, nll(c, z, 0, c.num(1)) + c.log(s), "log loss in the tail")


def tasks(tier):
    q = tier == "quick"
    T = []
    for R in (1, 2, 3) if q else (1, 2, 3, 5):
        T.append(("losses", dict(R=R), None))
        T.append(("rejects", dict(R=R), None))
    for big in (0, 10 ** 8, -(10 ** 10)):
        T.append(("offset", dict(big=big), dict(wit=6)))
    for yt in ("int64", "int32", "uint8", "int16"):
        T.append(("ints", dict(R=2 if yt != "uint8" else 1, yt=yt, mt="real"), None))
    T.append(("ints", dict(R=4, yt="int64", mt="int"), None))
    T.append(("many", dict(R=300, nm=2), None))
    T.append(("many", dict(R=2, nm=12), None))
    for nm, n in ((1, 1200), (2, 150), (12, 2)):
        T.append(("large_pred", dict(nm=nm, n=n), None))
    for me in (["m"], ["b", "a"], ["b", "c", "a"]):
        for R in (1, 2, 3):
            T.append(("table", dict(methods=me, R=R, order=["ms", "sm", "inter"][R - 1], idx=["str", "int", "dup"][R - 1]), None))
    T.append(("table", dict(methods=["b", "a"], R=2, drop=True), None))
    for spec in ([("m", "std")], [("m", "nostd")], [("b", "std"), ("a", "nostd")], [("b", "nostd"), ("c", "std"), ("a", "std")], [("i", "int"), ("b", "std")]):
        for ids in ([4], [2, 1], [3, 1, 2]):
            for fl in (False, True):
                T.append(("pred", dict(spec=spec, ids=ids, floor=fl), None))
    for k in (40, 70):  # tiny means and deviations
        for fl in (False, True):
            T.append(("pred", dict(spec=[("b", "std")], ids=[2, 1], floor=fl, k=k), None))
    for ch in ("test", "order", "floor", "train", "same", "labels", "inputs", "method"):
        T.append(("checkpoint", dict(change=ch), dict(wit=2)))
    T.append(("exact", dict(methods=["b", "a"], R=3), None))
    T.append(("tail", {}, None))
    T.append(("losses", dict(R=2), dict(layout="neg")))
    T.append(("losses", dict(R=2), dict(layout="ro")))
    for N in (2, 3):
        T.append(("refit", dict(N=N), None))
    for big in (0, 10 ** 8, -(10 ** 9), None):
        T.append(("noise_data", dict(data=[1, 3, -2], big=big), dict(wit=4)))
    for dt, v in (("int8", [100, 90, 120, -7]), ("uint8", [200, 250, 255]), ("int16", [30000, 31000, 32000]), ("int32", [2 * 10 ** 9, 2 * 10 ** 9 + 3])):
        T.append(("noise_data", dict(data=v, big=None, dtype=dt), None))
    for n in (64, 128, 1024):
        T.append(("noise_data", dict(data=[(i * i + 5 * i) % 17 for i in range(n)], big=0), None))
    for N in (2, 3, 4):
        T.append(("noise", dict(N=N), None))
    return T
