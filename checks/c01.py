"""C01 classification scoring rules."""
import numpy as np
from checks.common import dist, labels, logs, norm2

BOUNDS = "tables of 1..3 rows by 1..4 labels (2 rows: every label combination; 6 labels with one row) with every probability symbolic in (0,1), exact zeros and certain predictions included; every label vector; dtypes int8/int32/int64/bool; large instances with a few symbolic entries: 300 labels, 130 labels with int8 labels, 300 rows"
ASSUMPTIONS = ["log/exp are exact inverses (log-domain values are kept as products of powers)"]


def rules(c, R, L, zero="none", dtype="int64"):
    cl = c.M.classification
    ys, y = labels(c, R, L, np.dtype(dtype))
    k = c.pick("zk", range(L)) if zero != "none" else 0
    P = [dist(c, "p%d_" % i, L, zero if i == 0 else "none", k) for i in range(R)]
    lp = logs(c, P)
    snap, ysnap = c.snapshot(lp), list(y)
    nll = c.cells(cl.log_loss(y, lp))
    br = c.cells(cl.brier_loss(y, lp, rescale=False))
    sp = c.cells(cl.spherical_loss(y, lp, rescale=False))
    brs = c.cells(cl.brier_loss(y, lp))
    sps = c.cells(cl.spherical_loss(y, lp))
    c.same([len(v) for v in (nll, br, sp, brs, sps)], [R] * 5, "one loss per sample")
    for i in range(R):
        p, t = P[i], ys[i]
        c.eq(nll[i], -c.log(p[t]), "log loss %d" % i)
        b = c.Sum([(p[k] - (1 if k == t else 0)) * (p[k] - (1 if k == t else 0)) for k in range(L)])
        c.eq(br[i], b, "Brier loss %d" % i)
        nm = norm2(c, p)
        s = -c.div(p[t], nm)
        c.eq(sp[i], s, "spherical loss %d" % i)
        if L == 1:
            c.eq(brs[i], 0, "single label Brier")
            c.eq(sps[i], 0, "single label spherical")
        else:
            c.eq(brs[i], c.div(b * L, L - 1), "rescaled Brier %d" % i)
            c.eq(sps[i] * (1 - c.div(1, c.sqrt(c.num(L)))), 1 + s, "rescaled spherical %d" % i)
    c.unchanged(lp, snap, "log probabilities")
    c.same(list(y), ysnap, "labels unmodified")


def large(c, L, R, dtype="int64"):
    """many labels or rows: two symbolic probabilities, the rest of the mass spread over two labels"""
    cl, u = c.M.classification, c.M.util
    ks = [k for k in (256, 128, L - 1, 0, L // 2) if k < L and k <= np.iinfo(dtype).max]
    ys = [ks[i % len(ks)] for i in range(R)]
    y = np.array(ys, dtype=dtype)
    p = [c.real("p%d" % i, 0, 1, lo_open=True, hi_open=True) for i in range(2)]
    rows = []
    for i, t in enumerate(ys):
        q, r = p[i % 2], [c.num(0)] * L
        r[t] = q
        a, b = (t + 1) % L, (t - 127) % L
        r[a] = r[a] + (1 - q) * c.frac(1, 4)
        r[b] = r[b] + (1 - q) * c.frac(3, 4)
        rows.append(r)
    lp = logs(c, rows)
    snap = c.snapshot(lp)
    nll = c.cells(cl.log_loss(y, lp))
    H = np.asarray(u.one_hot(y.astype(int), L))
    c.same([list(np.flatnonzero(h)) for h in H], [[t] for t in ys], "one hot (many)")
    br, sp = c.cells(cl.brier_loss(y, lp, rescale=False)), c.cells(cl.spherical_loss(y, lp, rescale=False))
    brs = c.cells(cl.brier_loss(y, lp))
    c.same([len(v) for v in (nll, br, sp, brs)], [R] * 4, "one loss per sample")
    for i in sorted(set(range(3)) | {R // 2, R - 2, R - 1}):
        r, t = rows[i], ys[i]
        b = 1 + c.Sum([v * v for v in r]) - 2 * r[t]
        c.eq(nll[i], -c.log(r[t]), "log loss %d (many)" % i)
        c.eq(br[i], b, "Brier loss %d (many)" % i)
        c.eq(brs[i], c.div(b * L, L - 1), "rescaled Brier loss %d (many)" % i)
        c.eq(sp[i], -c.div(r[t], norm2(c, r)), "spherical loss %d (many)" % i)
    c.unchanged(lp, snap, "log probabilities (many)")
    c.same([int(v) for v in y], ys, "labels unmodified (many)")


def tiny(c, R, L):
    """probabilities too small for a float: the log loss is still minus the log probability"""
    cl = c.M.classification
    ys, y = labels(c, R, L)
    rows = [[c.real("x%d_%d" % (i, k), -30000, -800) for k in range(L)] for i in range(R)]
    for i, r in enumerate(rows):
        r[c.pick("top%d" % i, range(L))] = c.num(0)
    lp = c.arr(rows)
    c.eqs(c.cells(cl.log_loss(y, lp)), [-rows[i][ys[i]] for i in range(R)], "log loss of a tiny probability")


def anchors(c, L, R):
    """certain correct -> 0, uniform -> 1"""
    cl = c.M.classification
    ys, y = labels(c, R, L)
    lp = logs(c, [[c.num(1 if k == t else 0) for k in range(L)] for t in ys])
    un = logs(c, [[c.frac(1, L) for k in range(L)] for t in ys])
    for f, n in ((cl.brier_loss, "Brier"), (cl.spherical_loss, "spherical")):
        c.eqs(c.cells(f(y, lp)), [0] * R, n + ": certain correct scores 0")
        c.eqs(c.cells(f(y, lp, rescale=True)), [0] * R, n + ": certain correct scores 0")
        c.eqs(c.cells(f(y, un)), [1 if L > 1 else 0] * R, n + ": uniform scores 1")


def out_of_range(c, R, L):
    cl = c.M.classification
    ys = [c.pick("y%d" % i, range(L)) for i in range(R)]
    k = c.pick("k", range(R))
    ys[k] = c.pick("bad", [-1, -L, L, L + 1])
    lp = logs(c, [dist(c, "p%d_" % i, L) for i in range(R)])
    y = np.array(ys)
    for n in ("log_loss", "brier_loss", "spherical_loss", "hard_loss"):
        c.rejects(lambda: getattr(cl, n)(y, lp), "label out of range: " + n)


def onehot(c, R, L):
    u = c.M.util
    ys, y = labels(c, R, L)
    H = u.one_hot(y, L)
    c.same([[bool(v) for v in r] for r in np.asarray(H)], [[k == t for k in range(L)] for t in ys], "one hot")
    bad = list(ys)
    bad[c.pick("k", range(R))] = c.pick("bad", [-1, L])
    c.rejects(lambda: u.one_hot(np.array(bad), L), "one_hot label out of range")


def tasks(tier):
    q = tier == "quick"
    T = []
    for R, L in [(1, 1), (3, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3), (1, 4)] + ([] if q else [(4, 2), (3, 3), (2, 4), (1, 5), (1, 6)]):
        for z in ["none"] if L == 1 else ["none", "one", "certain"]:
            T.append(("rules", dict(R=R, L=L, zero=z), None))
    T.append(("rules", dict(R=1, L=6), None))
    T.append(("rules", dict(R=3, L=2, dtype="bool"), None))
    T.append(("rules", dict(R=2, L=2, zero="certain", dtype="bool"), None))
    T.append(("rules", dict(R=2, L=1, dtype="bool"), None))
    T.append(("rules", dict(R=2, L=3, dtype="int8"), None))
    T.append(("rules", dict(R=2, L=3, dtype="int32"), None))
    for lay in ("F", "neg", "step", "ro"):
        T.append(("rules", dict(R=2, L=3), dict(layout=lay)))
        T.append(("rules", dict(R=3, L=2), dict(layout=lay)))
    for R, L in [(1, 2), (2, 2), (1, 3)]:
        T.append(("tiny", dict(R=R, L=L), None))
    T.append(("large", dict(L=300, R=3), None))
    T.append(("large", dict(L=130, R=3, dtype="int8"), None))
    T.append(("large", dict(L=3, R=300), None))
    for L in (1, 2, 3, 4, 5, 9, 10):
        T.append(("anchors", dict(L=L, R=1 if L > 4 else 2), None))
    for R, L in [(1, 1), (1, 2), (2, 2), (2, 3), (3, 2)]:
        T.append(("out_of_range", dict(R=R, L=L), None))
        T.append(("onehot", dict(R=R, L=L), None))
    return T
