"""C26 one-call benchmarks equal the composition of their stages."""
import numpy as np
import pandas as rpd

from checks import c04, c05
from checks.c11 import Stub, PAT
from checks.common import dist

BOUNDS = "1..3 methods, 2 training and 2 test points, symbolic predictions, symbolic floor, losses and curves given as arbitrary functions, pairwise on/off, error bars t/bernstein/boot with symbolic limits; 1000 replicates from fixed draws; 60 test points with two symbolic rows; floors close to 1; a single method with pairwise intervals"
ASSUMPTIONS = ["standard deviation, t-test and roots are uninterpreted permutation-invariant functions of the sample (decided exactly in C12-C14)", "equal draws in the one call and in the composition"]


class ExpCurve(Stub):
    def __call__(self, y_true, y_score, sample_weight=None):
        c = self.c
        return super().__call__(y_true, c.arr([c.exp(v) for v in c.cells(y_score)]), sample_weight)


def same_tables(c, a, b, label):
    c.same(sorted(map(str, a.index)), sorted(map(str, b.index)), label + ": rows")
    c.same(sorted(map(str, a.columns)), sorted(map(str, b.columns)), label + ": columns")
    for r in b.index:
        for k in b.columns:
            c.eq(a.loc[r, k], b.loc[r, k], "%s: %s %s" % (label, r, k))


def same_dumps(c, a, b):
    c.same(sorted(a), sorted(b), "curves present")
    for k in b:
        c.same(list(a[k].columns), list(b[k].columns), "curve columns")
        c.eqs(c.cells(a[k]), c.cells(b[k]), "curve of %s %s" % k)


def lossf(c, j):
    def f(y, log_pred_prob):
        v = c.cells(log_pred_prob)
        n = len(v) // 2
        return c.arr([c.exp(v[2 * i + int(y[i])]) * (j + 1 + i) for i in range(n)])

    return f


BOX = {("m", 1): 4, ("m", 2): 20, ("ref", 1): 13, ("ref", 2): 29}


def boxed(c, m, t):
    """a distribution inside a small box, so that few comparisons depend on the values"""
    b = BOX[m, t]
    v = c.real("p_%s%d" % (m, t), c.frac(b, 32), c.frac(b + 1, 32))
    return [v, 1 - v]


def setup_cls(c, methods, zero=False):
    c04.reset(c)
    R = c04.REC["rows"]
    for m, kind in methods:
        for t in (1, 2, 9, 8):
            R[m, t] = boxed(c, m, t) if t in (1, 2) else [c.frac(1, 3), c.frac(2, 3)]
    return {m: c04.KIND[k](m) for m, k in methods}


def limits(c, kind, names):
    if not kind:
        return {}
    up = c.real("up")
    c.assume(up >= 8)
    return {names[0]: (c.num(0), up)}


def classification(c, methods, ref, EBm, floor, lim, pair, ncurve=1):
    M, P = c.M.classification, c.M.mlpaper
    M.DEFAULT_NGRID = 3
    objs = setup_cls(c, methods)
    Xtr, ytr = np.array([[9], [8]]), np.array([0, 0])
    Xte, yte = np.array([[1], [2]]), np.array([1, 0])
    losses = {"B": lossf(c, 0), "A": lossf(c, 3)}
    curves = {"k%d" % i: ExpCurve(c, ["previous", "linear"][i], i + 1) for i in range(ncurve)}
    lims = limits(c, lim, ["A"])
    kw, kp = {}, {}
    f = None
    if floor:
        f = c.real("f", c.frac(5, 32), c.frac(6, 32)) if floor is True else c.real("f", c.frac(8191, 8192), 1, hi_open=True)
        kw["min_pred_log_prob"] = kp["min_log_prob"] = c.log(f)
    opt = {}
    if pair is not None:
        opt["pairwise_CI"] = pair
    if EBm:
        opt["method_EB"] = EBm
    if lims:
        opt["limits"] = dict(lims)
    full, dump = M.just_benchmark(Xtr, ytr, Xte, yte, 2, objs, losses, curves, ref, **kw, **opt)
    fits = c04.REC["fit"]
    for t, X, y in fits:
        c.same((X.tolist(), y.tolist()), (Xtr.tolist(), ytr.tolist()), "fitted on the training data")
    for t, X in c04.REC["pred"]:
        c.same(X.tolist(), Xte.tolist(), "predictions on the test data")
    # independent: mean of each method's own losses
    for m, _ in methods:
        for j, k in ((0, "B"), (3, "A")):
            tot = c.num(0)
            for i, t in enumerate((1, 2)):
                p = c04.oracle(c, c04.REC["rows"][m, t], f)
                tot = tot + p[yte[i]] * (j + 1 + i)
            c.eq(full.loc[m, (k, "mean")], c.div(tot, 2), "mean loss %s of %s" % (k, m))
    pred = M.get_pred_log_prob(Xtr, ytr, Xte, 2, objs, **kp)
    ls = P.loss_summary_table(M.loss_table(pred, yte, losses), ref, **opt)
    o2 = {k: v for k, v in opt.items() if k == "pairwise_CI"}
    cs, d2 = M.curve_summary_table(pred, yte, curves, ref, **o2)
    same_tables(c, full, rpd.concat((ls, cs), axis=1), "benchmark")
    same_dumps(c, dump, d2)


def summary(c, methods, ref, EBm, pair, nb, conf, N=2):
    """summary_table passes every option on to both stages"""
    M, P = c.M.classification, c.M.mlpaper
    y = np.array([1, 0] + [i % 3 % 2 for i in range(2, N)])
    p = {m: [boxed(c, m, t) for t in (1, 2)] + [[c.frac(1 + (5 * i + len(m)) % 15, 16), c.frac(15 - (5 * i + len(m)) % 15, 16)] for i in range(2, N)] for m in methods}
    cols = [(m, l) for m in methods for l in (0, 1)]
    t = c.frame([[c.log(p[m][i][l] * (2 + i)) for m, l in cols] for i in range(N)], index=list(range(N)), columns=rpd.MultiIndex.from_tuples(cols, names=["method", "label"]))
    losses = {"B": lossf(c, 0), "A": lossf(c, 2)}
    curves = {"k": ExpCurve(c, "linear", 1), "h": ExpCurve(c, "previous", 2)}
    conf = c.frac(*conf)
    grid = c.arr([c.frac(0), c.frac(3, 8)])
    opt = dict(pairwise_CI=pair, confidence=conf)
    lims = {"A": (c.num(0), c.num(6 + N))}
    full, dump = M.summary_table(t, y, losses, curves, ref, x_grid=grid, n_boot=nb, method_EB=EBm, limits=lims, **opt)
    ls = P.loss_summary_table(M.loss_table(t, y, losses), ref, method_EB=EBm, limits=lims, **opt)
    cs, d2 = M.curve_summary_table(t, y, curves, ref, x_grid=grid, n_boot=nb, **opt)
    same_tables(c, full, rpd.concat((ls, cs), axis=1), "summary")
    same_dumps(c, dump, d2)


def regression(c, methods, ref, EBm, floor, lim, pair):
    M, P = c.M.regression, c.M.mlpaper
    c05.REC.clear()
    c05.REC.update(c=c, fit=[], mu={}, sd={})
    for m in methods:
        for t in (1, 2, 9, 8):
            b = methods.index(m) * (5 if t == 1 else -7) + 3 * t
            c05.REC["mu"][m, t] = c.real("mu_%s%d" % (m, t), b, b + 1) if t < 5 else c.frac(t)
            c05.REC["sd"][m, t] = c.real("sd_%s%d" % (m, t), 0, 1, lo_open=True) if t < 5 else c.frac(t)
    objs = {m: c05.WithStd(m) for m in methods}
    Xtr, ytr = np.array([[9], [8]]), c.arr([c.real("ytr0", -9, 9), c.real("ytr1", -9, 9)])
    yt = [c.real("y0", 2, 3), c.real("y1", -6, -5)]
    Xte, yte = np.array([[1], [2]]), c.arr(yt)

    def lf(j):
        return lambda y, mu, std: y * (j + 3) + mu * (j + 1) + std

    losses = {"B": lf(0), "A": lf(4)}
    lims = {}
    if lim:
        lims = {"A": (c.num(-500), c.real("up", 500))}
    kw = {}
    f = c.num(0)
    if floor:
        f = kw["min_std"] = c.real("f", 0, c.frac(1, 2))
    opt = {}
    if pair is not None:
        opt["pairwise_CI"] = pair
    if EBm:
        opt["method_EB"] = EBm
    if lims:
        opt["limits"] = dict(lims)
    out = M.just_benchmark(Xtr, ytr, Xte, yte, objs, losses, ref, **kw, **opt)
    for t, X, y in c05.REC["fit"]:
        c.same(X.tolist(), Xtr.tolist(), "fitted on the training data")
        c.eqs(c.cells(y), c.cells(ytr), "fitted on the training targets", 0)
    for m in methods:
        for j, k in ((0, "B"), (4, "A")):
            tot = c.num(0)
            for i, t in enumerate((1, 2)):
                tot = tot + yt[i] * (j + 3) + c05.REC["mu"][m, t] * (j + 1) + c.Max([f, c05.REC["sd"][m, t]])
            c.eq(out.loc[m, (k, "mean")], c.div(tot, 2), "mean loss %s of %s" % (k, m))
    pred = M.get_gauss_pred(Xtr, ytr, Xte, objs, **kw)
    want = P.loss_summary_table(M.loss_table(pred, yte, losses), ref, **opt)
    same_tables(c, out, want, "benchmark")


def zeros(c, methods, ref, floor, EBm):
    """predictions of probability zero: infinite losses without a floor, the floor itself otherwise"""
    M, P = c.M.classification, c.M.mlpaper
    M.DEFAULT_NGRID = 3
    objs = setup_cls(c, methods)
    R = c04.REC["rows"]
    for m, _ in methods[:1]:
        R[m, 1] = [c.num(1), c.num(0)]
    Xtr, ytr = np.array([[9], [8]]), np.array([0, 1])
    Xte, yte = np.array([[1], [2]]), np.array([1, 0])

    def nll(y, log_pred_prob):
        v = c.cells(log_pred_prob)
        return c.arr([-v[2 * i + int(y[i])] for i in range(len(v) // 2)])

    losses = {"N": nll, "A": lossf(c, 3)}
    curves = {"k": ExpCurve(c, "linear", 1)}
    kw, kp = {}, {}
    f = None
    if floor:
        f = c.real("f", c.frac(1, 2 ** 40), c.frac(1, 2 ** 39))
        kw["min_pred_log_prob"] = kp["min_log_prob"] = c.log(f)
    full, dump = M.just_benchmark(Xtr, ytr, Xte, yte, 2, objs, losses, curves, ref, method_EB=EBm, **kw)
    for m, _ in methods:
        tot = c.num(0)
        for i, t in enumerate((1, 2)):
            tot = tot + c04.oracle(c, R[m, t], f)[yte[i]] * (4 + i)
        c.eq(full.loc[m, ("A", "mean")], c.div(tot, 2), "mean loss of %s" % m)
    m = methods[0][0]
    c.same(c.is_fin(full.loc[m, ("N", "mean")]), bool(floor), "log loss of a zero probability")
    pred = M.get_pred_log_prob(Xtr, ytr, Xte, 2, objs, **kp)
    ls = P.loss_summary_table(M.loss_table(pred, yte, losses), ref, method_EB=EBm)
    cs, d2 = M.curve_summary_table(pred, yte, curves, ref)
    same_tables(c, full, rpd.concat((ls, cs), axis=1), "benchmark")
    same_dumps(c, dump, d2)


def fix2(r, n, k):
    return PAT[r % len(PAT)]


def fixN(r, n, k):
    return [1] * k if r == 0 else [2, 0] * (k // 2) if r == 1 else [0, 2] * (k // 2)


def tasks(tier):
    q = tier == "quick"
    T = []
    o = dict(abs_stats=True, boot_fixed=fix2, boot_rows=3, budget=150)
    two = [("m", "log"), ("ref", "proba")]
    T.append(("classification", dict(methods=two, ref="ref", EBm=None, floor=False, lim=False, pair=None), dict(o, max_paths=12)))
    T.append(("classification", dict(methods=two, ref="m", EBm="t", floor=True, lim=True, pair=True), dict(o, max_paths=12)))
    T.append(("classification", dict(methods=two[:1], ref="m", EBm="bernstein", floor=True, lim=True, pair=False, ncurve=2), dict(o, max_paths=12)))
    T.append(("classification", dict(methods=two, ref="ref", EBm="boot", floor=False, lim=True, pair=False), dict(o, max_paths=12)))
    for EBm in ("t", "bernstein", "boot"):
        for pair in (False, True):
            T.append(("summary", dict(methods=["m", "ref"], ref="ref", EBm=EBm, pair=pair, nb=5, conf=(1, 4)), dict(o, max_paths=40 if q else 400)))
    T.append(("summary", dict(methods=["m", "ref"], ref="ref", EBm="t", pair=False, nb=3, conf=(1, 4), N=60), dict(o, boot_fixed=fixN, max_paths=12)))
    for floor in (False, True):
        T.append(("zeros", dict(methods=two[:1] if floor else two, ref="m" if floor else "ref", floor=floor, EBm="t"), dict(o, max_paths=12)))
    T.append(("classification", dict(methods=two, ref="ref", EBm=None, floor="one", lim=False, pair=None), dict(o, max_paths=12)))
    two = ["m", "ref"]
    for EBm in ("t", "bernstein"):
        T.append(("regression", dict(methods=["ref"], ref="ref", EBm=EBm, floor=True, lim=True, pair=True), dict(o, max_paths=30)))
    for EBm in (None, "bernstein", "boot"):
        for pair in (None, True, False):
            T.append(("regression", dict(methods=two if pair is not None else ["z", "ref", "a"], ref="ref" if pair else two[0] if pair is not None else "z", EBm=EBm, floor=bool(pair), lim=EBm is not None, pair=pair), dict(o, max_paths=30 if q else 400)))
    return T
