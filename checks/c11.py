"""C11 curve_boot and curve_summary_table."""
import numpy as np
import pandas as rpd

from checks.c09 import q_idx
from checks.c10 import pv
from checks.common import mcols

BOUNDS = "2..3 points, arbitrary symbolic scores and labels, arbitrary (stub) curve functions linear in weights and scores with linear and previous interpolation plus the library's three curves, scalar and predictor references, n_boot 1..3 with every multinomial draw and up to 41 replicates from fixed draws, grids of 1..3 points and the default grid; tables of 1..3 methods x 1..2 curves, columns in any order; a long symbolic-free grid; 600 paired replicates (fixed draws) with ordered symbolic scores; curve nodes at thirds"
ASSUMPTIONS = ["np.random.multinomial returns any non-negative integer row summing to n", "bootstrap weights may differ from the drawn counts by at most 1e-6 (floor against zero weights)"]

X = [0, 1, 4]  # quarters: curve nodes at 0, 1/4, 1


class Stub:
    """a curve whose height at node j is sum_i w_i * coef(i, j, y_i) * score_i"""

    def __init__(self, c, kind, a, x0=0, sx=1):
        self.c, self.kind, self.a = c, kind, a
        self.x0, self.sx = x0, sx  # nodes at x0 + sx*X
        self.calls = []

    def coef(self, i, j, yi):
        return self.a * (i + 1) * (j + 1) ** 2 + (3 + j * j if yi else -1)

    def height(self, y, s, w):
        c = self.c
        return [c.Sum([wi * self.coef(i, j, yi) * si for i, (wi, yi, si) in enumerate(zip(w, y, s))]) for j in range(3)]

    def area(self, h):
        c = self.c
        if self.kind == "linear":
            return ((h[0] + h[1]) * c.frac(1, 8) + (h[1] + h[2]) * c.frac(3, 8)) * self.sx
        return (h[0] * c.frac(1, 4) + h[1] * c.frac(3, 4)) * self.sx

    def grid(self, g):
        return self.x0 + self.sx * self.c.frac(g, 8)

    def at(self, h, g):
        """value on the grid; g = (numerator in 8ths)"""
        c = self.c
        if self.kind == "linear":
            return h[0] + (h[1] - h[0]) * c.frac(g, 2) if g <= 2 else h[1] + (h[2] - h[1]) * c.frac(g - 2, 6)
        return h[0] if g < 2 else h[1] if g < 8 else h[2]

    def __call__(self, y_true, y_score, sample_weight=None):
        c = self.c
        yy = [bool(q) for q in c.cells(y_true)]
        s = c.cells(y_score)
        n = len(s)
        if sample_weight is None:
            W = [[c.num(1)] * n]
        else:
            w = c.cells(sample_weight)
            W = [w[r * n : (r + 1) * n] for r in range(len(w) // n)]
        self.calls.append((yy, s, None if sample_weight is None else W))
        xs = c.arr([[self.x0 + self.sx * c.frac(q, 4) for q in X] for _ in W])
        ys = c.arr([self.height(yy, s, w) for w in W])
        return (xs, ys, self.kind), c.arr([[c.num(0)] * 3 for _ in W])


def stats(c, boot, ref_boot, full, ref, pair, conf):
    """(error bar, p)"""
    e = [a - b for a, b in zip(boot, ref_boot)] if pair else boot
    o = full - ref if pair else full
    s = [e[i] for i in c.order(e)]
    lo, hi = q_idx(c, len(e), conf)
    return c.Max([s[hi] - o, o - s[lo]]), pv(c, boot, ref_boot)


def labels(c, N):
    y = [c.pick("y%d" % i, [0, 1]) for i in range(N)]
    return y, np.array(y, dtype=c.pick("ydt", [int, bool]))


def chk_weights(c, W, N, nb):
    """the weights in use are the drawn ones"""
    c.same((len(W), len(W[0])), (nb, N), "weights: one row per replicate")
    ds = [d for d in c.draw_args if d[0] == "multinomial"]
    if len(ds) == 1:
        for w, d in zip([q for r in W for q in r], c.cells(ds[0][2])):
            c.le(c.Abs(w - d), c.frac(1, 10 ** 6), "weights are the drawn counts")


def boot(c, N, nb, kind, refk, pair, grid, conf, y=None, x0=0, sx=1):
    M = c.M.classification
    f = Stub(c, kind, 2, x0, c.frac(*sx) if isinstance(sx, tuple) else sx)
    if y is None:
        y, Y = labels(c, N)
    else:
        Y = np.array(y)
        pair = bool(pair)
    lp = [c.vec("s%d_" % i, 2) for i in range(N)]
    s = [r[1] for r in lp]
    if refk == "scalar":
        ref = c.real("ref")
    else:
        rp = [c.vec("r%d_" % i, 2) for i in range(N)]
        ref = c.arr(rp)
        rs = [r[1] for r in rp]
    conf = c.frac(*conf)
    L = c.arr(lp)
    snap = c.snapshot(L)
    kw = dict(x_grid=c.arr([f.grid(g) for g in grid]), n_boot=nb, confidence=conf)
    if pair or nb != 1 or c.flag("explicit"):
        kw["pairwise_CI"] = pair
    out, curve = M.curve_boot(Y, L, ref, curve_f=f, **kw)
    mu, EB, p = out
    h = f.height(y, s, [c.num(1)] * N)
    c.eq(mu, f.area(h), "area of the curve on the original data")
    wc = [q for q in f.calls if q[2] is not None]
    for q in f.calls:
        c.same(q[0], [bool(v) for v in y], "labels passed to the curve")
    if not wc:
        c.fail("no weighted curve")
        return
    W = wc[0][2]
    for q in wc[1:]:
        for a, b in zip(q[2], W):
            c.eqs(a, b, "reference curve uses the same weights", 0)
    chk_weights(c, W, N, nb)
    bh = [f.height(y, s, w) for w in W]
    ba = [f.area(q) for q in bh]
    if refk == "scalar":
        ra, r0 = [ref] * nb, ref
    else:
        ra, r0 = [f.area(f.height(y, rs, w)) for w in W], f.area(f.height(y, rs, [c.num(1)] * N))
    e0, p0 = stats(c, ba, ra, f.area(h), r0, pair, conf)
    if c.concrete:
        c.assume(all(a == b or abs(a - b) > 1e-9 * (1 + abs(b)) for a, b in zip(ba, ra)))
    c.eq(EB, e0, "error bar of the area" + (" difference" if pair else ""))
    c.eq(p, p0, "p-value against the reference areas of the same weights")
    chk_curve(c, f, curve, grid, h, bh, conf)
    c.unchanged(L, snap, "predictions")


def chk_curve(c, f, curve, grid, h, bh, conf, tag=""):
    c.same(list(curve.columns), ["xgrid", "ygrid", "LB", "UB"], "curve columns" + tag)
    c.same(len(curve), len(grid), "one row per grid point" + tag)
    xg, yg, lb, ub = [c.cells(curve[k]) for k in ("xgrid", "ygrid", "LB", "UB")]
    lo, hi = q_idx(c, len(bh), conf)
    for j, g in enumerate(grid):
        c.eq(xg[j], f.grid(g), "grid" + tag)
        c.eq(yg[j], f.at(h, g), "curve on the grid" + tag)
        b = [f.at(q, g) for q in bh]
        s = [b[i] for i in c.order(b)]
        c.eq(lb[j], s[lo], "lower envelope" + tag)
        c.eq(ub[j], s[hi], "upper envelope" + tag)


def real_curves(c, N, nb, name):
    """the library's own curves: full-data area and bootstrap areas of the same function"""
    M, pc, u = c.M.classification, c.M.perf_curves, c.M.util
    fn = getattr(pc, name)
    y = [1, 0, 1][:N] if c.flag("yk") else [0, 1, 1][:N]
    lp = [[c.real("a%d" % i), c.real("s%d" % i)] for i in range(N)]
    for i in range(N - 1):
        c.assume(lp[i][1] < lp[i + 1][1])
    Y = np.array(y)
    kw = {} if name == "roc_curve" and c.flag("dflt") else dict(curve_f=fn)
    ref = c.frac(1, 2)
    conf = c.frac(3, 4)
    grid = [c.frac(0), c.frac(1, 3), c.frac(1)]
    (mu, EB, p), curve = M.curve_boot(Y, c.arr(lp), ref, n_boot=nb, x_grid=c.arr(grid), confidence=conf, **kw)
    s = c.arr([r[1] for r in lp])
    (xc, yc, kind), _ = fn(Y.astype(bool), s)
    c.eq(mu, c.cells(u.area(xc, yc, kind))[0], "area of the curve on the original data")
    c.eqs(c.cells(curve["ygrid"]), c.cells(u.interp1d(c.arr(grid), xc, yc, kind)), "curve on the grid")
    ds = [d for d in c.draw_args if d[0] == "multinomial"]
    if len(ds) != 1:
        return
    W = ds[0][2] + c.np.zeros((nb, N))
    W = c.np.maximum(c.frac(1, 10 ** 10), W)
    (xb, yb, kind), _ = fn(Y.astype(bool), s, W)
    ab = c.cells(u.area(xb, yb, kind))
    if not all(c.is_fin(a) for a in ab) or not c.is_fin(mu):
        return
    e0, p0 = stats(c, ab, [ref] * nb, mu, ref, False, conf)
    if c.concrete:
        c.assume(all(abs(a - ref) > 1e-6 for a in ab))
        c.eq(p, p0, "p-value")
    c.eq(EB, e0, "error bar")


def table(c, N, methods, ref, kinds, nb, pair, lay, grid, conf, fixed=False, extra=()):
    M = c.M.classification
    fs = {("k%d" % i): Stub(c, k, 1 + i) for i, k in enumerate(kinds)}
    fs = dict(sorted(fs.items(), reverse=True))
    y = [1, 0, 1][:N]
    lp = {m: [c.vec("%s%d_" % (m, i), 2) for i in range(N)] for m in methods}
    cols = [(m, l) for m in methods for l in (0, 1)]
    if lay == "inter":
        cols = [(m, l) for l in (0, 1) for m in methods]
    elif lay == "rev":
        cols = [(m, l) for m in methods[::-1] for l in (0, 1)]
    mi = mcols(cols, ["method", "label"], extra)
    t = c.frame([[lp[m][i][l] for m, l in cols] for i in range(N)], index=list(range(N)), columns=mi)
    snap = c.snapshot(t)
    if fixed:  # fewer orders of the replicates
        for m in methods:
            c.assume(lp[m][0][1] > 0)
            c.assume(lp[m][1][1] > 0)
    conf = c.frac(*conf)
    kw = dict(n_boot=nb, confidence=conf, x_grid=c.arr([c.frac(g, 8) for g in grid]))
    tbl, dump = M.curve_summary_table(t, np.array(y), fs, ref, pairwise_CI=pair, **kw)
    c.unchanged(t, snap, "predictions")
    c.same(sorted(tbl.index), sorted(methods), "one row per method")
    c.same(sorted(tbl.columns), sorted((k, s) for k in fs for s in ("mean", "error", "p")), "one column per curve and statistic")
    c.same(sorted(dump), sorted((m, k) for m in methods for k in fs), "one curve per method and curve")
    one = [c.num(1)] * N
    for k, f in fs.items():
        Ws = [q[2] for q in f.calls if q[2] is not None]
        if fixed:
            Ws = Ws[:1]
        if not Ws:
            c.fail("no weighted curve")
            return
        rs = [r[1] for r in lp[ref]]
        for m in methods:
            s = [r[1] for r in lp[m]]
            h = f.height(y, s, one)
            mu, EB, p = [tbl.loc[m, (k, q)] for q in ("mean", "error", "p")]
            tag = " %s %s" % (m, k)
            c.eq(mu, f.area(h), "own area" + tag)
            cand = []
            for W in Ws:
                bh = [f.height(y, s, w) for w in W]
                ra = [f.area(f.height(y, rs, w)) for w in W]
                cand.append(stats(c, [f.area(q) for q in bh], ra, f.area(h), f.area(f.height(y, rs, one)), pair, conf) + (bh,))
            if m == ref:
                c.eq(p, c.nan, "NaN p-value of the reference" + tag)
                if pair:
                    c.eq(EB, c.nan, "NaN error of the reference" + tag)
            else:
                c.check(c.Or(*[c.near(p, q[1]) for q in cand]), "own p-value" + tag)
            if not (m == ref and pair):
                c.check(c.Or(*[c.near(EB, q[0]) for q in cand]), "own error bar" + tag)
            cv = dump[m, k]
            if fixed:
                chk_curve(c, f, cv, grid, h, cand[0][2], conf, tag)
            else:
                c.eqs(c.cells(cv["ygrid"]), [f.at(h, g) for g in grid], "own curve" + tag)
                c.eqs(c.cells(cv["xgrid"]), [c.frac(g, 8) for g in grid], "grid" + tag)
                lb, ub = c.cells(cv["LB"]), c.cells(cv["UB"])
                for j, g in enumerate(grid):
                    c.le(lb[j], ub[j], "envelope ordered" + tag)


def paired_many(c, nb):
    """many replicates, paired with a reference predictor"""
    M = c.M.classification
    f = Stub(c, "previous", 1)
    d, rs = c.vec("d", 2), c.vec("r", 2)
    c.assume(d[0] > 0)
    c.assume(d[1] > 9 * d[0])
    s = [a + b for a, b in zip(d, rs)]
    y = [0, 1]
    lp, rp = [[[c.num(j), q[j]] for j in range(2)] for q in (s, rs)]
    pair = c.flag("pair")
    if not pair:
        c.assume(s[0] > 0)
        c.assume(s[1] > 9 * s[0])
    (mu, EB, p), curve = M.curve_boot(np.array(y), c.arr(lp), c.arr(rp), curve_f=f, x_grid=c.arr([c.num(1)]), n_boot=nb, pairwise_CI=pair)
    W = [q[2] for q in f.calls if q[2] is not None][0]
    c.same(len(W), nb, "number of replicates")
    one = [c.num(1)] * 2
    h, h0 = f.area(f.height(y, s, one)), f.area(f.height(y, rs, one))
    c.eq(mu, h, "area (many replicates)")
    uniq = {}
    for w in W:
        k = tuple(id(q) for q in w) if not c.concrete else tuple(w)
        if k not in uniq:
            uniq[k] = [f.area(f.height(y, q, w)) for q in (s, rs, d)]
        uniq[k].append(1)
    # differences are positive and increase with the weight of the second point
    if c.concrete:
        c.assume(all(v[0] - v[1] > 1e-9 * (1 + abs(v[1])) for v in uniq.values()))
    c.eq(p, 0, "p-value (many replicates)")
    e = [v[2] if pair else v[0] for v in uniq.values()]
    cnt = [len(v) - 3 for v in uniq.values()]
    es = [q for i in c.order(e) for q in [e[i]] * cnt[i]]
    lo, hi = q_idx(c, nb, c.frac(95, 100))
    o = h - h0 if pair else h
    c.eq(EB, c.Max([es[hi] - o, o - es[lo]]), "error bar (many replicates)")


def defaults(c):
    """default grid, 1000 replicates, 0.95"""
    M = c.M.classification
    f = Stub(c, "previous", 1)
    lp = [c.vec("s%d_" % i, 2) for i in range(2)]
    c.assume(lp[0][1] > 0)
    c.assume(lp[1][1] > 9 * lp[0][1])
    s = [r[1] for r in lp]
    y = [0, 1]
    r = c.real("ref", None, 0)
    (mu, EB, p), curve = M.curve_boot(np.array(y), c.arr(lp), r, curve_f=f)
    W = [q[2] for q in f.calls if q[2] is not None][0]
    c.same(len(W), 1000, "1000 replicates")
    c.same(len(curve), 100, "100 grid points")
    xg = c.cells(curve["xgrid"])
    c.eq(xg[0], 0, "grid from 0")
    c.eq(xg[-1], 1, "grid to 1")
    c.eq(xg[50] - xg[49], c.frac(1, 99), "linear grid")
    h = f.height(y, s, [c.num(1)] * 2)
    c.eq(mu, f.area(h), "area")
    c.eq(c.cells(curve["ygrid"])[0], h[0], "curve at 0")
    c.eq(c.cells(curve["ygrid"])[-1], h[2], "curve at 1")
    uniq = {}
    ba = []
    for w in W:
        k = tuple(id(q) for q in w) if not c.concrete else tuple(w)
        if k not in uniq:
            uniq[k] = f.area(f.height(y, s, w))
        ba.append(uniq[k])
    conf = c.frac(95, 100)
    e0, p0 = stats(c, ba, [r] * 1000, f.area(h), r, False, conf)
    c.eq(EB, e0, "error bar at confidence 0.95")
    c.eq(p, p0, "p-value")


def rejects(c):
    M = c.M.classification
    f = Stub(c, "linear", 1)
    lp = [c.vec("s%d_" % i, 2) for i in range(2)]
    kind = c.pick("kind", ["nan", "nanref", "nanscalar", "labels", "nboot", "shape"])
    Y = np.array([0, 1])
    ref = c.real("r")
    kw = dict(curve_f=f, n_boot=2, x_grid=c.arr([c.frac(0), c.frac(1)]))
    if kind == "nan":
        lp[c.pick("i", [0, 1])][c.pick("j", [0, 1])] = c.nan
    elif kind == "nanref":
        rp = [c.vec("r%d_" % i, 2) for i in range(2)]
        rp[c.pick("i", [0, 1])][1] = c.nan
        ref = c.arr(rp)
    elif kind == "nanscalar":
        ref = c.nan
    elif kind == "labels":
        Y = np.array(c.pick("bad", [[0, 2], [-1, 1]]))
    elif kind == "nboot":
        kw["n_boot"] = 0
    else:
        ref = c.arr([c.vec("q", 2)])
    c.rejects(lambda: M.curve_boot(Y, c.arr(lp), ref, **kw), kind)


PAT = [(2, 0), (1, 1), (0, 2), (1, 1), (2, 0), (1, 1), (0, 2)]


def fix2(r, n, k):
    return PAT[r % len(PAT)]


def tasks(tier):
    q = tier == "quick"
    T = []
    fk = dict(boot_fork=True, boot_rows=5)
    i = 0
    for nb in (1, 2):
        for kind in ("linear", "previous"):
            for refk in ("scalar", "pred"):
                for pair in (False, True):
                    i += 1
                    T.append(("boot", dict(N=2, nb=nb, kind=kind, refk=refk, pair=pair, grid=[[0, 3, 8], [2, 1, 2], [5]][i % 3], conf=(3, 4)), fk))
    for refk in ("scalar", "pred"):
        for pair in (False, True):
            T.append(("boot", dict(N=2, nb=5, kind="linear", refk=refk, pair=pair, grid=[1], conf=(1, 4), y=[1, 0]), dict(boot_fixed=fix2, boot_rows=9)))
            T.append(("boot", dict(N=2, nb=41, kind="previous", refk=refk, pair=pair, grid=[8], conf=(15, 16), y=[0, 1]), dict(boot_fixed=fix2, boot_rows=7)))
    for pair in (False, True):  # curves on another range, and long grids
        T.append(("boot", dict(N=2, nb=5, kind="linear", refk="pred", pair=pair, grid=[0, 8], conf=(1, 4), y=[1, 0], x0=-1, sx=4), dict(boot_fixed=fix2, boot_rows=9)))
        T.append(("boot", dict(N=2, nb=5, kind="previous", refk="scalar", pair=pair, grid=[8 * i // 119 for i in range(120)], conf=(1, 4), y=[0, 1], x0=2, sx=8), dict(boot_fixed=fix2, boot_rows=9)))
    T.append(("boot", dict(N=2, nb=5, kind="previous", refk="pred", pair=True, grid=[0, 2, 8], conf=(1, 4), y=[0, 1], sx=(10, 3)), dict(boot_fixed=fix2, boot_rows=9)))
    if not q:
        for pair in (False, True):
            T.append(("boot", dict(N=2, nb=3, kind="linear", refk="pred", pair=pair, grid=[0, 3, 8], conf=(1, 2)), fk))
            T.append(("boot", dict(N=3, nb=2, kind="previous", refk="pred", pair=pair, grid=[2, 7], conf=(1, 2)), fk))
    for name in ("roc_curve", "recall_precision_curve", "prg_curve"):
        T.append(("real_curves", dict(N=3, nb=1, name=name), fk))
        if not q:
            T.append(("real_curves", dict(N=3, nb=2, name=name), fk))
    for pair in (False, True):
        T.append(("table", dict(N=2, methods=["m", "ref"], ref="ref", kinds=["linear", "previous"], nb=1, pair=pair, lay="norm", grid=[0, 8], conf=(1, 2)), fk))
        T.append(("table", dict(N=2, methods=["z", "ref", "a"], ref="ref", kinds=["linear"], nb=1, pair=pair, lay="inter", extra=[("gone", 1), ("a", 2)], grid=[3], conf=(1, 2)), fk))
        T.append(("table", dict(N=2, methods=["m", "ref"], ref="m", kinds=["previous"], nb=5, pair=pair, lay="rev", grid=[8], conf=(1, 4)), dict(boot_fixed=fix2, boot_rows=9)))
        for p in T[-1:]:
            p[1]["fixed"] = True
    for nb in (600,) if q else (600, 1200):
        T.append(("paired_many", dict(nb=nb), dict(boot_fixed=fix2, boot_rows=3)))
    T.append(("defaults", {}, dict(boot_fixed=fix2, boot_rows=3)))
    T.append(("rejects", {}, None))
    return T
