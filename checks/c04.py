"""C04 prediction tables of classifiers and the constant baseline."""
import shutil
import tempfile

import numpy as np
from checks.common import labels

BOUNDS = "1..3 methods, 1..3 test points, 1..3 labels, every predicted weight symbolic (zeros included), floor absent or symbolic in (0,1), methods with log-probabilities, with probabilities only, or whose predict_log_proba raises; baseline: up to 4 training labels over 1..3 labels, symbolic pseudo count; checkpoint directory reused for other data (labels, inputs or method changed); 1200 test points, 12 methods or 60 labels with two symbolic weights"
ASSUMPTIONS = ["joblib.Memory caches on function and arguments as documented (modelled; replayed with the real one in a scratch directory)"]

REC = {}


class Base:
    def __init__(self, tag):
        self.tag = tag

    def fit(self, X, y):
        REC["fit"].append((self.tag, np.array(X, copy=True), np.array(y, copy=True)))
        self.offset = int(np.asarray(X).reshape(-1)[0])

    def _rows(self, X):
        return [REC["rows"][self.tag, int(r[0])] for r in np.asarray(X).reshape(len(X), -1)]


class WithLog(Base):
    def predict_log_proba(self, X):
        REC["pred"].append((self.tag, np.array(X, copy=True)))
        c = REC["c"]
        return c.arr([[c.log(v) for v in r] for r in self._rows(X)])

    def predict_proba(self, X):
        c = REC["c"]
        return c.arr([[c.num(1) for v in r] for r in self._rows(X)])  # must not be used


class OnlyProba(Base):
    def predict_proba(self, X):
        REC["pred"].append((self.tag, np.array(X, copy=True)))
        c = REC["c"]
        return c.arr([list(r) for r in self._rows(X)])


class Raising(OnlyProba):
    def predict_log_proba(self, X):
        raise NotImplementedError("no log proba")


KIND = {"log": WithLog, "proba": OnlyProba, "raise": Raising}


def reset(c):
    REC.clear()
    REC.update(c=c, fit=[], pred=[], rows={}, zero=[])


def oracle(c, w, f):
    q = [c.Max([v, f]) for v in w] if f is not None else w
    t = c.Sum(q)
    return [c.div(v, t) for v in q]


def setup(c, spec, ids, L, zero, ztag=""):
    for m, kind in spec:
        for i, t in enumerate(ids):
            w = [c.real("w%s_%s_%d_%d" % (ztag, m, t, k), 0, 8, lo_open=True) for k in range(L)]
            if zero and i == 0 and L > 1:
                k = c.pick("z%s_%s" % (ztag, m), range(L))
                w[k] = c.num(0)
                REC["zero"].append((m, t, k))
            REC["rows"][m, t] = w


def checktbl(c, tbl, spec, ids, L, f, tol=None):
    c.same(sorted(tuple(q) for q in tbl.columns), sorted((m, k) for m, _ in spec for k in range(L)), "columns are method x label")
    c.same(list(tbl.index), list(range(len(ids))), "row labels")
    for m, _ in spec:
        for i, t in enumerate(ids):
            exp = oracle(c, REC["rows"][m, t], f)
            got = [c.exp(c.cells(tbl[(m, k)])[i]) for k in range(L)]
            c.eqs(got, exp, "distribution of %s at test point %d" % (m, i), **({} if tol is None else dict(tol=tol)))
            for a, b, k in REC["zero"]:
                if (a, b) == (m, t) and f is None:
                    c.eq(c.cells(tbl[(m, k)])[i], -c.inf, "log-probability of an impossible label")


def table(c, spec, ids, L, floor=False, zero=False, nd=2, dtype="int64", verbose=False):
    cl = c.M.classification
    reset(c)
    setup(c, spec, ids, L, zero)
    X_train = np.array([[100], [101], [102]])
    y_train = np.array([0, L - 1, 0], dtype=dtype)
    X_test = np.array([[t] for t in ids])
    if nd == 3:
        X_train, X_test = X_train[:, :, None], X_test[:, :, None]
    objs = {m: KIND[k](m) for m, k in spec}
    kw = {}
    f = None
    if floor:
        f = c.real("f", 0, 1, lo_open=True, hi_open=True)
        kw["min_log_prob"] = c.log(f)
    if verbose:
        kw["verbose"] = True
    tbl = cl.get_pred_log_prob(X_train, y_train, X_test, L, objs, **kw)
    checktbl(c, tbl, spec, ids, L, f)
    c.same(sorted(t for t, _, _ in REC["fit"]), sorted(m for m, _ in spec), "every method fitted exactly once")
    for t, X, y in REC["fit"]:
        c.same((X.tolist(), y.tolist()), (X_train.tolist(), y_train.tolist()), "fitted on the training data")
    for t, X in REC["pred"]:
        c.same(X.tolist(), X_test.tolist(), "predicts the test points as given")


class Raw(Base):
    def predict_log_proba(self, X):
        return REC["c"].arr([REC["rows"][self.tag, int(r[0])] for r in np.asarray(X)])


def unlikely(c, L):
    """very improbable labels keep their log-probability"""
    cl = c.M.classification
    reset(c)
    ids = [2, 1]
    for t in ids:
        REC["rows"]["m", t] = [c.num(0)] + [-c.real("t%d_%d" % (t, k), 0, 20000) for k in range(1, L)]
    tbl = cl.get_pred_log_prob(np.array([[100], [101]]), np.array([0, L - 1]), np.array([[2], [1]]), L, {"m": Raw("m")})
    for i, t in enumerate(ids):
        got = [c.cells(tbl[("m", k)])[i] for k in range(L)]
        for k in range(1, L):
            c.eq(got[k] - got[0], REC["rows"]["m", t][k], "log odds of an improbable label")


def checkpoint(c, L, change):
    """reusing a checkpoint directory for other data must not return the old predictions"""
    cl = c.M.classification
    reset(c)
    spec = [("b", "log"), ("a", "proba")] if change != "floor" else [("b", "log")]
    d = tempfile.mkdtemp(prefix="c04_")
    try:
        X_train = np.array([[100], [101]])
        y_train = np.array([0, L - 1])
        f = c.frac(1, 4) if change == "floor" else None
        setup(c, spec, [1, 2], L, False)
        X_test = np.array([[1], [2]])
        kw = dict(checkpointdir=d)
        if f is not None:
            kw["min_log_prob"] = c.log(f)
        tbl = cl.get_pred_log_prob(X_train, y_train, X_test, L, {m: KIND[k](m) for m, k in spec}, **kw)
        checktbl(c, tbl, spec, [1, 2], L, f)
        ids = [1, 2]
        objs = {m: KIND[k](m) for m, k in spec}
        if change == "test":
            setup(c, spec, [7, 8], L, False, "n")
            ids, X_test = [7, 8], np.array([[7], [8]])
        elif change == "order":
            ids, X_test = [2, 1], np.array([[2], [1]])
        elif change == "floor":
            f = c.frac(1, 2)
            kw["min_log_prob"] = c.log(f)
        elif change == "train":
            X_train, y_train = np.array([[200], [201]]), y_train[::-1].copy()
            setup(c, spec, [1, 2], L, False, "n")  # a method fitted on other data predicts something else
        elif change in ("labels", "inputs"):
            if change == "labels":
                y_train = y_train[::-1].copy()
            else:
                X_train = np.array([[100], [201]])
            setup(c, spec, [1, 2], L, False, "n")
        elif change == "method":  # same name, another estimator
            setup(c, [(m + "2", k) for m, k in spec], [1, 2], L, False, "n")
            objs = {m: KIND[k](m + "2") for m, k in spec}
        elif change == "same":
            pass
        tbl = cl.get_pred_log_prob(X_train, y_train, X_test, L, objs, **kw)
        if change == "method":
            for m, _ in spec:
                for t in ids:
                    REC["rows"][m, t] = REC["rows"][m + "2", t]
        checktbl(c, tbl, spec, ids, L, f)
    finally:
        shutil.rmtree(d)


def noise(c, n, L, pc, dtype="int64"):
    cl = c.M.classification
    ys, y = labels(c, n, L, np.dtype(dtype))
    kw = {}
    a = c.num(0)
    if pc:
        a = c.real("pc", 0, 16, lo_open=True)
        kw["pseudo_count"] = a
    if L != 2 or c.flag("named"):
        kw["n_labels"] = L
    est = cl.JustNoise(**kw)
    est.fit(np.zeros((n, 2)), y)
    nt = c.pick("nt", [1, 2, 3])
    out = est.predict_log_proba(np.zeros((nt, 2)))
    c.same(tuple(out.shape), (nt, L), "shape of the baseline prediction")
    exp = [c.div(a + ys.count(k), a * L + n) for k in range(L)]
    c.eqs([c.exp(v) for v in c.cells(out)], exp * nt, "baseline = smoothed training frequencies")


def refit(c, n, L):
    """fitting the same object again forgets the earlier data"""
    cl = c.M.classification
    a = c.real("pc", 0, 16)
    est = cl.JustNoise(n_labels=L, pseudo_count=a)
    for t in range(2):
        ys, y = labels(c, n + t, L, name="y%d_" % t)
        est.fit(np.zeros((n + t, 2)), y)
        out = est.predict_log_proba(np.zeros((2, 2)))
        c.eqs([c.exp(v) for v in c.cells(out)], [c.div(a + ys.count(k), a * L + n + t) for k in range(L)] * 2, "baseline fitted %d times" % (t + 1))
    # another object does not disturb this one
    other = cl.JustNoise(n_labels=L, pseudo_count=a)
    other.fit(np.zeros((3, 2)), np.array([L - 1] * 3))
    out = other.predict_log_proba(np.zeros((1, 2)))
    c.eqs([c.exp(v) for v in c.cells(out)], [c.div(a + 3 * (k == L - 1), a * L + 3) for k in range(L)], "second baseline")
    out = est.predict_log_proba(np.zeros((2, 2)))
    c.eqs([c.exp(v) for v in c.cells(out)], [c.div(a + ys.count(k), a * L + n + 1) for k in range(L)] * 2, "first baseline after fitting the second")


def large_noise(c, n, L, dtype):
    """many training labels or classes"""
    cl = c.M.classification
    a = c.real("pc", 0, 16, lo_open=True)
    ys = [(i * i + 3 * i) % L for i in range(n - 2)] + [L - 1, L - 1]
    est = cl.JustNoise(n_labels=L, pseudo_count=a)
    est.fit(np.zeros((n, 1)), np.array(ys, dtype=dtype))
    out = est.predict_log_proba(np.zeros((2, 1)))
    c.same(tuple(out.shape), (2, L), "shape of the baseline prediction")
    got = c.cells(out)
    c.eqs([c.exp(v) for v in got[:L]], [c.div(a + ys.count(k), a * L + n) for k in range(L)], "baseline (many)")
    c.eqs(got[L:], got[:L], "same prediction everywhere (many)")


def large_table(c, nm, n, L):
    """many methods, test points or labels; a few symbolic"""
    cl = c.M.classification
    reset(c)
    ms = ["m%d" % i for i in range(nm)][::-1]
    spec = [(m, ["log", "proba", "raise"][i % 3]) for i, m in enumerate(ms)]
    ids = [(7 * i + 3) % (n + 1 + (n % 7 == 6)) for i in range(n)]
    assert len(set(ids)) == n
    for i, (m, _) in enumerate(spec):
        for t in ids:
            REC["rows"][m, t] = [c.frac(1 + (t + i + k * k) % 9, 16) for k in range(L)]
    for j, (m, t) in enumerate([(ms[0], ids[0]), (ms[-1], ids[-1])]):
        REC["rows"][m, t][L - 1] = c.real("w%d" % j, 0, 8, lo_open=True)
    X_train, y_train = np.array([[100], [101], [102]]), np.array([0, L - 1, 0])
    tbl = cl.get_pred_log_prob(X_train, y_train, np.array([[t] for t in ids]), L, {m: KIND[k](m) for m, k in spec})
    checktbl(c, tbl, spec, ids, L, None, 1e-12)


def tasks(tier):
    q = tier == "quick"
    T = []
    two, three = [("b", "log"), ("a", "proba")], [("c", "raise"), ("a", "log"), ("b", "proba")]
    for spec in ([("m", "log")], [("m", "proba")], [("m", "raise")]):
        T.append(("table", dict(spec=spec, ids=[3, 1, 2], L=2), None))
        T.append(("table", dict(spec=spec, ids=[5], L=3, zero=True), None))
        T.append(("table", dict(spec=spec, ids=[2, 1], L=2, floor=True), None))
        T.append(("table", dict(spec=spec, ids=[2, 1], L=2, floor=True, zero=True), None))
        T.append(("table", dict(spec=spec, ids=[2], L=3, floor=True), None))
    T.append(("table", dict(spec=two, ids=[2, 1], L=2, zero=True), None))
    T.append(("table", dict(spec=two, ids=[2], L=2, floor=True, dtype="bool"), None))
    T.append(("table", dict(spec=two[::-1], ids=[2], L=2, floor=True, zero=True, verbose=True), None))
    T.append(("table", dict(spec=three, ids=[2, 1], L=2, nd=3), None))
    T.append(("table", dict(spec=three, ids=[2, 1], L=1), None))
    T.append(("table", dict(spec=two, ids=[2, 1], L=3), None))
    if not q:
        T.append(("table", dict(spec=three, ids=[4, 2, 1], L=3), None))
        T.append(("table", dict(spec=two, ids=[2, 1], L=2, floor=True), None))
        T.append(("table", dict(spec=[("m", "log")], ids=[3, 2, 1], L=2, floor=True), None))
        T.append(("table", dict(spec=[("m", "log")], ids=[2], L=4, floor=True), None))
    for ch in ("test", "order", "floor", "train", "same", "labels", "inputs", "method"):
        T.append(("checkpoint", dict(L=2, change=ch), dict(wit=2)))
    for L in (2, 3):
        T.append(("unlikely", dict(L=L), None))
    for n, L in [(1, 2), (2, 2), (1, 3)]:
        T.append(("refit", dict(n=n, L=L), None))
    for n, L, dt in ((300, 2, "int64"), (300, 2, "bool"), (400, 130, "int16"), (20, 300, "int64"), (300, 3, "int8")):
        T.append(("large_noise", dict(n=n, L=L, dtype=dt), None))
    for nm, n, L in ((12, 2, 2), (2, 120, 2), (1, 1200, 2), (1, 2, 60)):
        T.append(("large_table", dict(nm=nm, n=n, L=L), None))
    for n, L in [(1, 1), (1, 2), (3, 2), (2, 3), (4, 2)]:
        for pc in (False, True):
            T.append(("noise", dict(n=n, L=L, pc=pc), None))
    T.append(("noise", dict(n=3, L=2, pc=True, dtype="bool"), None))
    T.append(("noise", dict(n=2, L=2, pc=False, dtype="bool"), None))
    return T
