"""C03 classification loss tables."""
import numpy as np
import pandas as pd
from checks.common import dist, labels, logs, mcols, norm2, weights

BOUNDS = "1..3 rows, 1..3 methods (any order, grouped or interleaved columns), 1..3 labels, every unnormalized weight symbolic in (0,8] times a common factor exp(K) with K in {0, +-1000} chosen per row, one zero-probability entry; row labels strings/ints/repeated; 4 metrics x several methods with improbable labels; more than 20 rows"
ASSUMPTIONS = ["logsumexp as documented by scipy (exact); exp overflows above 709 and underflows below -740"]

IDX = {"int": [7, 3, 5], "str": ["c", "a", "b"], "dup": ["u", "v", "u"]}


def build(c, methods, R, L, inter=False, idx="int", neg=None, offs=(0,), extra=()):
    raw, P = {}, {}
    for m in methods:
        for i in range(R):
            off = c.pick("K_%s_%d" % (m, i), offs)
            lw, p = weights(c, "w_%s_%d_" % (m, i), L, neg if i == 0 else None, off)
            raw[m, i], P[m, i] = lw, p
    cols = [(m, k) for m in methods for k in range(L)]
    if inter:
        cols = [(m, k) for k in range(L) for m in methods]
    data = [[raw[m, i][k] for m, k in cols] for i in range(R)]
    T = c.frame(data, index=IDX[idx][:R], columns=mcols(cols, ["method", "label"], extra))
    return T, raw, P


def expect(c, metric, p, t):
    if metric == "NLL":
        return -c.log(p[t])
    if metric == "Brier":
        L = len(p)
        b = c.Sum([(p[k] - (1 if k == t else 0)) * (p[k] - (1 if k == t else 0)) for k in range(L)])
        return c.div(b * L, L - 1) if L > 1 else c.num(0)
    if metric == "sphere":
        s = -c.div(p[t], norm2(c, p))
        return c.div(1 + s, 1 - c.div(1, c.sqrt(c.num(len(p))))) if len(p) > 1 else c.num(0)
    return -c.log(p[0]) * 3 + t  # stub


def table(c, methods, R, L, metrics, inter=False, idx="int", neg=None, offs=(0,), dtype="int64", drop=False):
    cl = c.M.classification
    ys, y = labels(c, R, L, np.dtype(dtype)) if R * L <= 4 else ([(i * 2 + 1) % L for i in range(R)], np.array([(i * 2 + 1) % L for i in range(R)]))
    extra = c.pick("dropped", [(("gone", 0),), ((methods[0], L),), (("0", -1),)]) if drop else ()
    T, raw, P = build(c, methods, R, L, inter, idx, neg, offs, extra)
    snap = c.snapshot(T)

    def stub(y, log_pred_prob):
        return -3 * log_pred_prob[:, 0] + y

    F = {"NLL": cl.log_loss, "Brier": cl.brier_loss, "sphere": cl.spherical_loss, "stub": stub}
    out = cl.loss_table(T, y, {k: F[k] for k in metrics})
    c.same(sorted(tuple(q) for q in out.columns), sorted((a, b) for a in metrics for b in methods), "columns are metric x method")
    c.same(list(out.index), IDX[idx][:R], "row labels and order")
    for k in metrics:
        for m in methods:
            col = c.cells(out[(k, m)])
            c.same(len(col), R, "rows")
            for i in range(R):
                c.eq(col[i], expect(c, k, P[m, i], ys[i]), "%s of %s, row %d" % (k, m, i))
    c.unchanged(T, snap, "table")


def normalized(c, methods, R, L):
    """assume_normalized: metrics see the table as it is"""
    cl = c.M.classification
    ys, y = labels(c, R, L)
    T, raw, P = build(c, methods, R, L)
    out = cl.loss_table(T, y, {"a": lambda y, log_pred_prob: log_pred_prob[:, 0] * 2 + y, "b": cl.log_loss}, assume_normalized=True)
    for m in methods:
        c.eqs(c.cells(out[("a", m)]), [raw[m, i][0] * 2 + ys[i] for i in range(R)], "stub of " + m)
        c.eqs(c.cells(out[("b", m)]), [-raw[m, i][ys[i]] for i in range(R)], "log loss of " + m)


def shift(c, R, L):
    """adding a constant to a row changes no loss"""
    cl = c.M.classification
    ys, y = labels(c, R, L)
    T, raw, P = build(c, ["m"], R, L)
    d = [c.real("d%d" % i, -500, 500) for i in range(R)]
    T2 = c.frame([[v + d[i] for v in raw["m", i]] for i in range(R)], columns=T.columns)
    F = {"NLL": cl.log_loss, "Brier": cl.brier_loss}
    a, b = cl.loss_table(T, y, F), cl.loss_table(T2, y, F)
    c.eqs(c.cells(b), c.cells(a), "row constant")


def norm(c, R, L, offs, neg=None):
    u = c.M.util
    lws, ps = [], []
    for i in range(R):
        lw, p = weights(c, "w%d_" % i, L, neg if i == 0 else None, c.pick("K%d" % i, offs))
        lws.append(lw)
        ps.append(p)
    X = c.arr(lws)
    snap = c.snapshot(X)
    N = u.normalize(X)
    c.eqs([c.exp(v) for v in c.cells(N)], [v for p in ps for v in p], "normalized distribution")
    c.unchanged(X, snap, "input")


def many(c, R, nm, L, asn):
    """many rows or methods, a few symbolic"""
    cl = c.M.classification
    ms = ["m%d" % i for i in range(nm)][::-1]
    ys = [(i * 2 + 1) % L for i in range(R)]
    W = {(m, i): [c.frac(1 + (i + j + k * k) % 9, 16) for k in range(L)] for j, m in enumerate(ms) for i in range(R)}
    for j, (m, i) in enumerate([(ms[0], 0), (ms[-1], R - 1), (ms[nm // 2], R // 2)]):
        W[m, i][ys[i]] = c.real("w%d" % j, 0, 8, lo_open=True)
    W[ms[0], 1][ys[1]] = c.frac(1, 2 ** 100)  # improbable and impossible true labels
    W[ms[-1], R - 2][ys[R - 2]] = c.num(0)
    cols = [(m, k) for m in ms for k in range(L)]
    idx = list(range(R))[::-1]
    P = {q: [c.div(v, c.Sum(w)) for v in w] for q, w in W.items()}
    src = P if asn else W
    T = c.frame([[c.log(src[m, i][k]) for m, k in cols] for i in range(R)], index=idx, columns=mcols(cols, ["method", "label"]))
    kw = dict(assume_normalized=True) if asn else {}
    snap = c.snapshot(T)
    out = cl.loss_table(T, np.array(ys), {"zo": cl.hard_loss, "Brier": cl.brier_loss, "sphere": cl.spherical_loss, "NLL": cl.log_loss}, **kw)
    c.unchanged(T, snap, "table (many)")
    c.same(list(out.index), idx, "row labels and order")
    c.same(sorted(tuple(q) for q in out.columns), sorted((a, b) for a in ("NLL", "Brier", "zo", "sphere") for b in ms), "columns are metric x method")
    for k in ("NLL", "Brier"):
        for m in ms:
            col = c.cells(out[(k, m)])
            c.same(len(col), R, "rows")
            for i in sorted({0, 1, R // 2, R - 2, R - 1} | set(range(0, R, 97)) if R > 1 else {0}):
                c.eq(col[i], expect(c, k, P[m, i], ys[i]), "%s of %s, row %d (many)" % (k, m, i))


def exact(c, R, methods):
    """whatever a metric returns is stored unaltered"""
    cl = c.M.classification
    T, raw, P = build(c, methods, R, 2)
    d = c.real("d", -4, 4)
    vals = [c.div(c.num(7), 3), c.div(c.num(123456789), 7), c.div(c.num(1), 3 * 2 ** 60)][:R]
    out = cl.loss_table(T, np.array([i % 2 for i in range(R)]), {"f": lambda a, b: c.arr(vals), "g": lambda a, b: c.arr([d] * R)})
    for m in methods:
        c.eqs(c.cells(out[("f", m)]), vals, "stored as returned", 0)
        c.eqs(c.cells(out[("g", m)]), [d] * R, "stored as returned", 0)


def rejects(c, R, L, nm):
    cl = c.M.classification
    methods = ["b", "a", "c"][:nm]
    ys = [i % L for i in range(R)]
    y = np.array(ys)
    T, raw, P = build(c, methods, R, L)
    an = c.flag("assume_normalized")
    F = {"NLL": cl.log_loss, "zo": cl.hard_loss}
    kind = c.pick("kind", ["nan", "order"] if L > 1 else ["nan"])
    if kind == "nan":
        m, i, k = c.pick("m", methods), c.pick("i", range(R)), c.pick("k", range(L))
        raw[m, i][k] = c.nan
        T2 = c.frame([[raw[m, i][k] for m in methods for k in range(L)] for i in range(R)], index=T.index, columns=T.columns)
    else:
        m = c.pick("m", methods)
        a = c.pick("a", range(L - 1))
        perm = list(range(L))
        perm[a], perm[a + 1] = perm[a + 1], perm[a]
        cols = [(q, k) for q in methods for k in (perm if q == m else range(L))]
        T2 = c.frame([[raw[q, i][k] for q, k in cols] for i in range(R)], index=T.index, columns=pd.MultiIndex.from_tuples(cols))
    c.rejects(lambda: cl.loss_table(T2, y, F, assume_normalized=an), kind)


def tasks(tier):
    q = tier == "quick"
    T = []
    big = (0, 1000, -1000)
    for me in (["m"], ["b", "a"], ["b", "c", "a"]):
        for R, L in [(1, 2), (2, 2), (3, 2), (2, 3)]:
            if len(me) == 3 and R * L > 4 and q:
                continue
            T.append(("table", dict(methods=me, R=R, L=L, metrics=["Brier", "NLL", "stub"], inter=R == 2, idx=["int", "str", "dup"][R - 1]), None))
    T.append(("table", dict(methods=["b", "a"], R=3, L=1, metrics=["NLL", "Brier"], idx="dup"), None))
    T.append(("table", dict(methods=["b", "a"], R=1, L=2, metrics=["NLL", "Brier"], offs=big), None))
    T.append(("table", dict(methods=["m"], R=2, L=2, metrics=["NLL", "Brier"], offs=big), None))
    T.append(("table", dict(methods=["b", "a"], R=2, L=2, metrics=["NLL", "Brier"], neg=0), None))
    T.append(("table", dict(methods=["b", "a"], R=1, L=2 if q else 3, metrics=["sphere", "NLL"], idx="str"), None))
    T.append(("table", dict(methods=["b", "a"], R=2, L=2, metrics=["NLL"], dtype="bool"), None))
    T.append(("table", dict(methods=["b", "a"], R=2, L=2, metrics=["NLL", "stub"], drop=True), None))
    T.append(("many", dict(R=2, nm=12, L=2, asn=False), None))
    T.append(("many", dict(R=1100, nm=1, L=2, asn=False), None))
    T.append(("many", dict(R=300, nm=2, L=3, asn=True), None))
    T.append(("many", dict(R=2, nm=2, L=40, asn=False), None))
    T.append(("exact", dict(methods=["b", "a"], R=3), None))
    T.append(("normalized", dict(methods=["b", "a"], R=2, L=2), None))
    T.append(("shift", dict(R=1, L=2), None))
    T.append(("shift", dict(R=2, L=2), None))
    for R, L in [(1, 1), (1, 2), (2, 2), (1, 3)] + ([] if q else [(3, 3), (2, 4)]):
        T.append(("norm", dict(R=R, L=L, offs=big), None))
        T.append(("norm", dict(R=R, L=L, offs=big, neg=0), None) if L > 1 else ("norm", dict(R=R, L=5, offs=(0,)), None))
    for lay in ("F", "neg", "step", "ro"):
        T.append(("norm", dict(R=2, L=2, offs=big), dict(layout=lay)))
    for R, L, nm in [(1, 1, 1), (2, 2, 1), (2, 2, 2), (1, 3, 2), (1, 2, 3)]:
        T.append(("rejects", dict(R=R, L=L, nm=nm), None))
    return T
