"""C07 areas equal rank statistics."""
import numpy as np
from checks.c06 import inputs

BOUNDS = "n=2..4 points: every label vector with both classes, every weak order of symbolic scores (n=4: sorted shuffled layouts with all ties; n=6 without ties), optional symbolic weights (n<=3); weights 1..3 against repetition; single-class data n=1..3; n=100 and 400 with 3..4 distinct symbolic scores; scores of other dtypes and scores a few ulps apart"
ASSUMPTIONS = []


def auc(c, f, Y, S, W=None):
    u = c.M.util
    args = (Y, S) if W is None else (Y, S, W)
    curve, _ = f(*args)
    return c.cells(u.area(*curve))


def mw(c, ys, s, w):
    num = []
    for i, a in enumerate(ys):
        for j, b in enumerate(ys):
            if a and not b:
                num.append(w[i] * w[j] * c.ite(s[i] > s[j], 1, c.ite(c.eqv(s[i], s[j]), c.frac(1, 2), 0)))
    pos, neg = c.Sum([v for v, b in zip(w, ys) if b]), c.Sum([v for v, b in zip(w, ys) if not b])
    return c.div(c.Sum(num), pos * neg)


def ap(c, ys, s, w):
    """sum over positives i of w_i/pos * precision at the threshold preceding s_i (at s_i for the highest score)"""
    pos = c.Sum([v for v, b in zip(w, ys) if b])
    n = len(ys)
    tot = []
    for i, a in enumerate(ys):
        if a:
            first = c.And(*[s[j] <= s[i] for j in range(n)])
            above = [c.ite(c.Or(s[j] > s[i], c.And(first, c.eqv(s[j], s[i]))), w[j], 0) for j in range(n)]
            tp, al = c.Sum([v for v, b in zip(above, ys) if b]), c.Sum(above)
            tot.append(c.div(w[i] * tp, al))
    return c.div(c.Sum(tot), pos)


def rank(c, n, mode, nw, which):
    pc = c.M.perf_curves
    ys, s = inputs(c, n, mode)
    Y, Sc = np.array(ys, dtype=bool), c.arr(s)
    f, g = (pc.roc_curve, mw) if which == "roc" else (pc.recall_precision_curve, ap)
    # force the order of the scores to be decided by the code under test first
    if nw:
        W = [c.vec("w%d_" % r, n, 0, 16, lo_open=True) for r in range(nw)]
        got = auc(c, f, Y, Sc, c.arr(W))
        c.same(len(got), nw, "one area per weight vector")
        for r in range(nw):
            c.eq(got[r], g(c, ys, s, W[r]), "weighted area equals the rank statistic")
    else:
        got, = auc(c, f, Y, Sc)
        c.eq(got, g(c, ys, s, [c.num(1)] * n), "area equals the rank statistic")


def large(c, n, k, nw):
    """many points with k distinct symbolic scores"""
    pc = c.M.perf_curves
    v = c.vec("s", k, -50, 50)
    for a, b in zip(v, v[1:]):
        c.assume(a > b)
    r = [(i * 7 + i // 3) % k for i in range(n)]
    ys = [(i * i // 5) % 3 != 1 for i in range(n)]
    Y, Sc = np.array(ys, dtype=bool), c.arr([v[q] for q in r])
    wv = c.vec("w", 2, 0, 16, lo_open=True) if nw else [c.num(1)] * 2
    W = c.arr([[wv[i % 2] for i in range(n)]]) if nw else None
    tot = [[wv[0] * sum(1 for i in range(n) if r[i] == j and ys[i] == b and not i % 2) + wv[1] * sum(1 for i in range(n) if r[i] == j and ys[i] == b and i % 2) for j in range(k)] for b in (True, False)]
    p, q = tot
    pos, neg = c.Sum(p), c.Sum(q)
    e = c.div(c.Sum([p[i] * q[j] * (2 if i < j else 1) for i in range(k) for j in range(i, k)]), 2 * pos * neg)
    got, = auc(c, pc.roc_curve, Y, Sc, W)
    c.eq(got, e, "area equals the rank statistic (many points)")
    e = [c.div(p[i] * c.Sum(p[: max(i, 1)]), c.Sum(p[: max(i, 1)]) + c.Sum(q[: max(i, 1)])) for i in range(k)]
    got, = auc(c, pc.recall_precision_curve, Y, Sc, W)
    c.eq(got, c.div(c.Sum(e), pos), "area equals the step sum (many points)")


def typed(c, n, dtype):
    """scores of integer, boolean or single-precision type"""
    pc = c.M.perf_curves
    f = c.pick("f", [0, 1])
    sc = [(i * 37 + 11 * f) % 7 * (1 if dtype[0] in "ubf" else (-1) ** (i % 3)) for i in range(n)]
    Sc = np.array(sc, dtype=dtype)
    ys = [(i * i // 5 + f) % 3 != 1 for i in range(n)]
    s = [c.num(float(v)) for v in Sc]
    for fn, g in ((pc.roc_curve, mw), (pc.recall_precision_curve, ap)):
        got, = auc(c, fn, np.array(ys), Sc)
        c.eq(got, g(c, ys, s, [c.num(1)] * n), "area equals the rank statistic (%s)" % dtype)


def close(c, k):
    """scores that differ by very little, or are huge, are still distinct"""
    pc = c.M.perf_curves
    u = c.frac(1, 2 ** k) if k > 0 else c.num(2 ** -k)
    ys, s = inputs(c, 3, "free")
    for fn, g in ((pc.roc_curve, mw), (pc.recall_precision_curve, ap)):
        got, = auc(c, fn, np.array(ys, dtype=bool), c.arr([v * u for v in s]))
        c.eq(got, g(c, ys, s, [c.num(1)] * 3), "area equals the rank statistic (close scores)")


def repeat(c, n, which, mode):
    """weight k equals k copies; also invariance under reordering and a strictly increasing transformation"""
    pc = c.M.perf_curves
    ys, s = inputs(c, n, mode)
    k = [c.pick("k%d" % i, [1, 2, 3] if i == 0 else [2, 1] if i == 1 else [1]) for i in range(n)]
    f = {"roc": pc.roc_curve, "rp": pc.recall_precision_curve, "prg": pc.prg_curve}[which]
    a, = auc(c, f, np.array(ys, dtype=bool), c.arr(s), c.arr([[c.num(v) for v in k]]))
    idx = [i for i in range(n) for _ in range(k[i])]
    idx = idx[1:][::-1] + idx[:1]  # reordered
    t = [3 * v * (1 if c.concrete else 1) + 7 for v in s]
    b, = auc(c, f, np.array([ys[i] for i in idx], dtype=bool), c.arr([t[i] for i in idx]))
    c.eq(a, b, "weights equal repetition, reordered and rescaled")


def single(c, n, nw):
    pc = c.M.perf_curves
    lab = c.flag("lab")
    s = c.vec("s", n, -50, 50)
    Y, Sc = np.array([lab] * n), c.arr(s)
    W = c.arr([c.vec("w%d_" % r, n, 0, 16, lo_open=True) for r in range(nw)]) if nw else None
    for f, e in ((pc.roc_curve, c.frac(1, 2)), (pc.prg_curve, c.num(0)), (pc.recall_precision_curve, c.num(1 if lab else 0))):
        for v in auc(c, f, Y, Sc, W):
            c.le(c.Abs(v - e), c.frac(2, 10**10), "single class area")


def tasks(tier):
    q = tier == "quick"
    T = []
    for w in ("roc", "rp"):
        for n in (2, 3):
            T.append(("rank", dict(n=n, mode="free", nw=0, which=w), None))
        T.append(("rank", dict(n=2, mode="free", nw=2, which=w), None))
        T.append(("rank", dict(n=3, mode="mono" if q else "free", nw=1, which=w), None))
        T.append(("rank", dict(n=4, mode="mono", nw=0, which=w), None))
        T.append(("rank", dict(n=6, mode="strict", nw=0, which=w), None))
        if not q:
            T.append(("rank", dict(n=4, mode="free", nw=0, which=w), None))
            T.append(("rank", dict(n=5, mode="mono", nw=0, which=w), None))
            T.append(("rank", dict(n=4, mode="strict", nw=1, which=w), None))
    for w in ("roc", "rp", "prg"):
        T.append(("repeat", dict(n=2, which=w, mode="free"), None))
        T.append(("repeat", dict(n=3, which=w, mode="mono"), None))
    for dt in ("uint8", "int8", "int64", "float32", "bool"):
        T.append(("typed", dict(n=9, dtype=dt), None))
    for k in (60, -60):
        T.append(("close", dict(k=k), None))
    T.append(("large", dict(n=400, k=4, nw=0), None))
    T.append(("large", dict(n=100, k=3, nw=1), None))
    for n in (1, 2, 3):
        T.append(("single", dict(n=n, nw=0), None))
    T.append(("single", dict(n=1, nw=2), None))
    T.append(("single", dict(n=2, nw=1), None))
    return T
