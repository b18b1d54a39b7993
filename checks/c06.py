"""C06 curve points."""
import numpy as np

BOUNDS = "n=1..3 points: every label vector and every weak order of symbolic scores, unweighted or with 1..2 symbolic positive weight vectors; n=4..6: every label vector, scores non-increasing in a fixed shuffled position order with every tie pattern; n=400 with 2..3 distinct symbolic scores; integer and repeated-call instances; n=6 with fixed fractional weights and one symbolic weight, to 1e-12"
ASSUMPTIONS = []


def inputs(c, n, mode, both=True):
    """labels (forked), scores: 'free' any order, 'mono' sorted in a shuffled layout (ties fork), 'strict' without ties"""
    ys = [c.pick("y%d" % i, [0, 1]) for i in range(n)]
    if both:
        c.assume(0 < sum(ys) < n)
    s = c.vec("s", n, -50, 50)
    if mode != "free":
        perm = [(i * 5 + 2) % n if n % 5 else (i * 3 + 1) % n for i in range(n)]
        for a, b in zip(perm, perm[1:]):
            c.assume(s[a] > s[b] if mode == "strict" else s[a] >= s[b])
    return ys, s


def counts(c, ys, s, w, t):
    """total weight of positives / negatives with score >= t"""
    tp = c.Sum([c.ite(si >= t, wi, 0) for yi, si, wi in zip(ys, s, w) if yi])
    fp = c.Sum([c.ite(si >= t, wi, 0) for yi, si, wi in zip(ys, s, w) if not yi])
    return tp, fp


def check_tholds(c, th, s):
    th = c.cells(th)
    c.eq(th[0], c.inf, "first threshold is inf")
    for a, b in zip(th[1:], th[2:]):
        c.check(b < a, "thresholds strictly decreasing")
    for v in s:
        c.check(c.Or(*[c.eqv(v, t) for t in th[1:]]), "every score is a threshold")
    for t in th[1:]:
        c.check(c.Or(*[c.eqv(v, t) for v in s]), "every threshold is a score")
    return th


def points(c, n, nw, mode, which):
    pc = c.M.perf_curves
    ys, s = inputs(c, n, mode)
    Y, Sc = np.array(ys, dtype=bool), c.arr(s)
    W = [c.vec("w%d_" % r, n, 0, 16, lo_open=True) for r in range(nw)]
    args = (Y, Sc) if not nw else (Y, Sc, c.arr(W))
    snap, wsnap = c.snapshot(Sc), c.snapshot(args[2]) if nw else []
    f = {"roc": pc.roc_curve, "rp": pc.recall_precision_curve, "prg": pc.prg_curve}[which]
    (x, y, kind), th = f(*args)
    c.same(kind, "linear" if which == "roc" else "previous", "interpolation kind")
    th = check_tholds(c, th, s)
    rows = W or [[c.num(1)] * n]
    c.same((tuple(x.shape), tuple(y.shape)), ((len(rows), len(th)),) * 2, "one row per weight vector, one point per threshold")
    for r, w in enumerate(rows):
        pos, neg = c.Sum([a for a, b in zip(w, ys) if b]), c.Sum([a for a, b in zip(w, ys) if not b])
        ylast = None
        for j in range(len(th) - 1, -1, -1):
            tp, fp = counts(c, ys, s, w, th[j])
            tag = "row %d point %d" % (r, j)
            if which == "roc":
                ex, ey = c.div(fp, neg), c.div(tp, pos)
            elif which == "rp":
                ex = c.div(tp, pos)
                ey = c.div(tp, tp + fp) if j else ylast
            else:
                if tp > 0:
                    ex = c.Max([c.num(0), 1 - c.div(pos * (pos - tp), neg * tp)])
                    ey = 1 - c.div(pos * fp, neg * tp)
                else:
                    ex, ey = c.num(0), -c.inf
                if j == 0:
                    ey = ylast
            if c.concrete and which == "prg" and abs(ex) < 1e-9:
                ex = c.num(0)
            c.eq(x[r, j], ex, "x of " + tag)
            c.eq(y[r, j], ey, "y of " + tag)
            ylast = ey
    c.unchanged(Sc, snap, "scores")
    c.same([bool(v) for v in Y], [bool(v) for v in ys], "labels unmodified")
    if nw:
        c.unchanged(args[2], wsnap, "weights")


def large(c, n, k, nw):
    """many points with k distinct symbolic scores"""
    pc = c.M.perf_curves
    v = c.vec("s", k, -50, 50)
    for a, b in zip(v, v[1:]):
        c.assume(a > b)
    rank = [(i * 7 + i // 3) % k for i in range(n)]
    ys = [(i * i // 5) % 3 != 1 for i in range(n)]
    Y, Sc = np.array(ys, dtype=bool), c.arr([v[r] for r in rank])
    wv = c.vec("w", 2, 0, 16, lo_open=True)
    W = [[wv[(i + r) % 2] for i in range(n)] for r in range(nw)]
    args = (Y, Sc) if not nw else (Y, Sc, c.arr(W))
    tots = []
    for r in range(nw or 1):
        cnt = [[[0, 0] for _ in range(k)] for _ in range(2)]  # class, score, weight kind
        for i in range(n):
            for j in range(rank[i], k):
                cnt[int(ys[i])][j][(i + r) % 2 if nw else 0] += 1
        tot = lambda q: q[0] * wv[0] + q[1] * wv[1] if nw else c.num(q[0])
        tots.append(([tot(q) for q in cnt[1]], [tot(q) for q in cnt[0]]))
    for which, f in (("roc", pc.roc_curve), ("rp", pc.recall_precision_curve), ("prg", pc.prg_curve)):
        (x, y, kind), th = f(*args)
        c.eqs(c.cells(th), [c.inf] + list(v), "thresholds of %s (many points)" % which)
        for r, (tp, fp) in enumerate(tots):
            pos, neg = tp[-1], fp[-1]
            for j in range(k):
                if which == "roc":
                    e = c.div(fp[j], neg), c.div(tp[j], pos)
                elif which == "rp":
                    e = c.div(tp[j], pos), c.div(tp[j], tp[j] + fp[j])
                else:
                    e = c.Max([c.num(0), 1 - c.div(pos * (pos - tp[j]), neg * tp[j])]), 1 - c.div(pos * fp[j], neg * tp[j])
                c.eq(x[r, j + 1], e[0], "x of %s row %d point %d (many points)" % (which, r, j))
                c.eq(y[r, j + 1], e[1], "y of %s row %d point %d (many points)" % (which, r, j))


def precise(c, n):
    """weights with full-precision fractions: points accurate to 1e-12 in floats"""
    pc = c.M.perf_curves
    d = c.real("d", 1, 4)
    s = c.vec("s", n, -50, 50)
    for a, b in zip(s, s[1:]):
        c.assume(a > b)
    w = [c.frac(3 + i * i % 11, 7 + 3 * i) for i in range(n - 1)] + [d]
    ys = [(i * i // 2) % 3 != 2 for i in range(n)]
    (x, y, _), th = pc.roc_curve(np.array(ys), c.arr(s), c.arr([w]))
    (u, v, _), _ = pc.recall_precision_curve(np.array(ys), c.arr(s), c.arr([w]))
    pos, neg = c.Sum([a for a, b in zip(w, ys) if b]), c.Sum([a for a, b in zip(w, ys) if not b])
    for j in range(n):
        tp, fp = c.Sum([a for a, b in zip(w[: j + 1], ys) if b]), c.Sum([a for a, b in zip(w[: j + 1], ys) if not b])
        c.eq(x[0, j + 1], c.div(fp, neg), "false positive rate %d (precise)" % j, 1e-12)
        c.eq(y[0, j + 1], c.div(tp, pos), "true positive rate %d (precise)" % j, 1e-12)
        c.eq(u[0, j + 1], c.div(tp, pos), "recall %d (precise)" % j, 1e-12)
        c.eq(v[0, j + 1], c.div(tp, tp + fp), "precision %d (precise)" % j, 1e-12)


def typed(c, n, dtype):
    """scores of integer or single-precision type; many points"""
    pc = c.M.perf_curves
    f = c.pick("f", [0, 1])
    sc = [(i * 37 + 11 * f) % 7 * (1 if dtype.startswith("u") or dtype == "float32" or dtype == "bool" else (-1) ** (i % 3)) for i in range(n)]
    Sc = np.array(sc, dtype=dtype)
    sc = np.array([float(v) for v in Sc])
    Y = np.array([(i * i // 5 + f) % 3 != 1 for i in range(n)])
    v = sorted(set(sc), reverse=True)
    tp, fp = [float(np.sum(Y & (sc >= t))) for t in v], [float(np.sum(~Y & (sc >= t))) for t in v]
    pos, neg = tp[-1], fp[-1]
    R = lambda a, b: c.div(c.num(a), c.num(b))
    (x, y, _), th = pc.roc_curve(Y, Sc)
    c.eqs(c.cells(th), [c.inf] + list(v), "thresholds (%s)" % dtype)
    c.eqs(c.cells(x), [0] + [R(q, neg) for q in fp], "fpr (%s)" % dtype)
    c.eqs(c.cells(y), [0] + [R(q, pos) for q in tp], "tpr (%s)" % dtype)
    (x, y, _), th = pc.recall_precision_curve(Y, Sc)
    c.eqs(c.cells(th), [c.inf] + list(v), "thresholds (%s)" % dtype)
    c.eqs(c.cells(x)[1:], [R(q, pos) for q in tp], "recall (%s)" % dtype)
    c.eqs(c.cells(y)[1:], [R(a, a + b) for a, b in zip(tp, fp)], "precision (%s)" % dtype)
    (x, y, _), th = pc.prg_curve(Y, Sc)
    c.eqs(c.cells(th), [c.inf] + list(v), "thresholds (%s)" % dtype)
    for j in range(len(v)):
        if tp[j]:
            c.eq(c.cells(x)[j + 1], max(0, 1 - R(pos * (pos - tp[j]), neg * tp[j])), "recall gain (%s)" % dtype)
            c.eq(c.cells(y)[j + 1], 1 - R(pos * fp[j], neg * tp[j]), "precision gain (%s)" % dtype)


def single(c, n, nw):
    """one class only: thresholds and the rate of the class that is present"""
    pc = c.M.perf_curves
    lab = c.flag("lab")
    s = c.vec("s", n, -50, 50)
    Y, Sc = np.array([lab] * n), c.arr(s)
    W = [c.vec("w%d_" % r, n, 0, 16, lo_open=True) for r in range(nw)]
    args = (Y, Sc) if not nw else (Y, Sc, c.arr(W))
    (x, y, kind), th = pc.roc_curve(*args)
    th = check_tholds(c, th, s)
    for r, w in enumerate(W or [[c.num(1)] * n]):
        for j in range(len(th)):
            t = c.div(c.Sum([c.ite(si >= th[j], wi, 0) for si, wi in zip(s, w)]), c.Sum(w))
            c.eq(y[r, j] if lab else x[r, j], t, "rate of the class present, row %d point %d" % (r, j))
    for f in (pc.recall_precision_curve, pc.prg_curve):
        _, th2 = f(*args)
        c.eqs(c.cells(th2), th, "same thresholds")


def tasks(tier):
    q = tier == "quick"
    T = []
    for w in ("roc", "rp", "prg"):
        for n in (2, 3):
            T.append(("points", dict(n=n, nw=0, mode="free", which=w), None))
        T.append(("points", dict(n=2, nw=2, mode="free", which=w), None))
        T.append(("points", dict(n=3, nw=1, mode="free", which=w), None))
        T.append(("points", dict(n=4, nw=0, mode="mono", which=w), None))
        T.append(("points", dict(n=4, nw=2, mode="strict", which=w), None))
        T.append(("points", dict(n=6, nw=0, mode="strict", which=w), None))
        if not q:
            T.append(("points", dict(n=4, nw=0, mode="free", which=w), None))
            T.append(("points", dict(n=4, nw=1, mode="mono", which=w), None))
            T.append(("points", dict(n=6, nw=0, mode="mono", which=w), None))
            T.append(("points", dict(n=5, nw=2, mode="strict", which=w), None))
    for w, lay in (("roc", "neg"), ("rp", "step"), ("prg", "F"), ("roc", "ro")):
        T.append(("points", dict(n=3, nw=0, mode="free", which=w), dict(layout=lay)))
        T.append(("points", dict(n=3, nw=2, mode="mono", which=w), dict(layout=lay)))
    T.append(("precise", dict(n=6), None))
    T.append(("large", dict(n=400, k=3, nw=0), None))
    T.append(("large", dict(n=400, k=2, nw=2), None))
    for dt in ("uint8", "int8", "int64", "float32", "bool"):
        T.append(("typed", dict(n=9, dtype=dt), None))
    T.append(("typed", dict(n=70001, dtype="uint8"), None))
    for n in (1, 2, 3):
        T.append(("single", dict(n=n, nw=0), None))
        T.append(("single", dict(n=n, nw=1), None))
    return T
