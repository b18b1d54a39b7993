"""C09 bootstrap intervals, error bar and weights (boot_util)."""

BOUNDS = "n_boot 1..5 with 1-2 columns fully symbolic estimates and symbolic confidence in (0,1); n_boot up to 41 (thorough 101) with one column of distinct values in a fixed order, symbolic confidence; n_boot 200 and 1000 with four distinct symbolic values and five confidences; the percentile levels for every confidence; weights N<=4, n_boot<=3, any draw, symbolic epsilon in [0,2]; n_boot 5003; 70000 resampled points"
ASSUMPTIONS = [
    "np.random.multinomial returns any non-negative integer row summing to n",
]


def step(n):
    from math import gcd

    return next(k for k in range(7, 99) if gcd(k, n) == 1)


def q_idx(c, n, conf):
    a = (1 - conf) * c.frac(1, 2)
    return c.floor_int(a * (n - 1), conf), c.ceil_int((1 - a) * (n - 1), conf)


def interval(c, n, m, mono=False):
    """percentile, basic: order statistics per column"""
    bu = c.M.boot_util
    cols = []
    for j in range(m):
        col = c.vec("e%d_" % j, n)
        if mono:
            for i in range(n - 1):
                c.assume(col[i] < col[i + 1])
        cols.append(col)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    rows = [[cols[j][(i * step(n)) % n if mono else i] for j in range(m)] for i in range(n)]
    est = c.arr(rows)
    snap = c.snapshot(est)
    LB, UB = bu.percentile(est, conf)
    lo, hi = q_idx(c, n, conf)
    L, U = c.cells(LB), c.cells(UB)
    c.same(len(L), m, "one bound per column")
    orig = c.vec("o", m)
    bL, bU = [c.cells(q) for q in bu.basic(est, c.arr(orig), conf)]
    for j in range(m):
        s = cols[j] if mono else [cols[j][i] for i in c.order(cols[j])]
        c.eq(L[j], s[lo], "percentile lower")
        c.eq(U[j], s[hi], "percentile upper")
        c.eq(bL[j], 2 * orig[j] - s[hi], "basic lower")
        c.eq(bU[j], 2 * orig[j] - s[lo], "basic upper")
    c.unchanged(est, snap, "estimates")


def errbar(c, n, mono=False):
    bu = c.M.boot_util
    e = c.vec("e", n)
    if mono:
        for i in range(n - 1):
            c.assume(e[i] < e[i + 1])
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    o = c.real("o")
    est = c.arr([e[(i * step(n)) % n] for i in range(n)] if mono else e)
    EB = bu.error_bar(est, o, conf)
    lo, hi = q_idx(c, n, conf)
    s = e if mono else [e[i] for i in c.order(e)]
    c.eq(EB, c.Max([s[hi] - o, o - s[lo]]), "error bar")
    c.le(0, EB, "error bar >= 0")


def errbar_inf(c, n):
    """infinite estimates: EB infinite iff the interval is, never NaN for a finite original"""
    bu = c.M.boot_util
    e = [c.pick("k%d" % i, [None, c.inf, -c.inf]) for i in range(n)]
    e = [c.real("e%d" % i) if v is None else v for i, v in enumerate(e)]
    conf = c.pick("conf", [c.frac(1, 2), c.frac(15, 16)])
    o = c.real("o")
    EB = bu.error_bar(c.arr(e), o, conf)
    lo, hi = q_idx(c, n, conf)
    s = [e[i] for i in c.order(e)]
    c.eq(EB, c.Max([s[hi] - o, o - s[lo]]), "error bar with infinities")


def orig_inf(c, n):
    """infinite original estimate: an interval reaching any other value needs an infinite error bar"""
    bu = c.M.boot_util
    sg = c.pick("sg", [1, -1])
    o = c.inf if sg > 0 else -c.inf
    e = [c.pick("k%d" % i, [None, o, -o]) for i in range(n)]
    e = [c.real("e%d" % i) if v is None else v for i, v in enumerate(e)]
    conf = c.pick("conf", [c.frac(1, 2), c.frac(15, 16)])
    lo, hi = q_idx(c, n, conf)
    s = [e[i] for i in c.order(e)]
    far = s[lo] if sg > 0 else s[hi]
    c.assume(c.Not(c.eqv(far, o)))
    c.eq(bu.error_bar(c.arr(e), o, conf), c.inf, "infinite error bar")


def levels(c):
    """the levels of every confidence"""
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    a, b = c.M.boot_util.confidence_to_percentiles(conf)
    c.eq(a, 50 * (1 - conf), "lower level")
    c.eq(b, 50 * (1 + conf), "upper level")


def large(c, n):
    """many replicates of four distinct values"""
    bu = c.M.boot_util
    e = c.vec("e", 4)
    for i in range(3):
        c.assume(e[i] < e[i + 1])
    o = c.real("o")
    k = [n // 50, n // 3, n - n // 3 - n // 50 - 1, 1]
    val = [e[j] for j in range(4) for _ in range(k[j])]
    lay = c.pick("lay", ["mixed", "up", "down"])
    est = c.arr({"up": val, "down": val[::-1]}.get(lay) or [val[(i * step(n)) % n] for i in range(n)])
    conf = c.pick("conf", [c.frac(9, 16), c.frac(7, 8), c.frac(95, 100) + c.frac(1, 1000), c.frac(15, 16), c.frac(8191, 8192)])
    lo, hi = q_idx(c, n, conf)
    L, U = bu.percentile(est, conf)
    c.eq(c.cells(L)[0], val[lo], "percentile lower")
    c.eq(c.cells(U)[0], val[hi], "percentile upper")
    c.eq(bu.error_bar(est, o, conf), c.Max([val[hi] - o, o - val[lo]]), "error bar")


def scaled(c, n, k):
    """tiny or huge estimates"""
    bu = c.M.boot_util
    u = c.frac(1, 2 ** k) if k > 0 else c.num(2 ** -k)
    e, o = c.vec("e", n), c.real("o")
    conf = c.pick("conf", [c.frac(1, 2), c.frac(15, 16)])
    est = c.arr([v * u for v in e])
    L, U = bu.percentile(est, conf)
    bL, bU = bu.basic(est, o * u, conf)
    EB = bu.error_bar(est, o * u, conf)
    lo, hi = q_idx(c, n, conf)
    s = [e[i] for i in c.order(e)]
    got = [c.div(c.cells(v)[0], u) for v in (L, U, bL, bU)] + [c.div(EB, u)]
    c.eqs(got, [s[lo], s[hi], 2 * o - s[hi], 2 * o - s[lo], c.Max([s[hi] - o, o - s[lo]])], "interval and error bar (scaled)")


def default_conf(c, n):
    """default confidence is 0.95"""
    bu = c.M.boot_util
    e = c.vec("e", 3)
    est = c.arr([e[i % 3] for i in range(n)])
    o = c.real("o")
    conf = c.frac(95, 100)
    c.eqs(bu.percentile(est), bu.percentile(est, conf), "default confidence percentile")
    c.eqs(bu.basic(est, o), bu.basic(est, o, conf), "default confidence basic")
    c.eq(bu.error_bar(est, o), bu.error_bar(est, o, conf), "default confidence error bar")
    a, b = bu.confidence_to_percentiles(conf)
    c.eq(a, c.frac(25, 10), "percentile of 0.95")
    c.eq(b, c.frac(975, 10), "percentile of 0.95")


def rejects(c):
    bu = c.M.boot_util
    n = c.pick("n", [1, 2, 3])
    e = c.vec("e", n)
    k = c.pick("nanpos", list(range(n)))
    e2 = list(e)
    e2[k] = c.nan
    o = c.real("o")
    c.rejects(lambda: bu.percentile(c.arr(e2)), "NaN estimate (percentile)")
    c.rejects(lambda: bu.basic(c.arr(e2), o), "NaN estimate (basic)")
    c.rejects(lambda: bu.error_bar(c.arr(e2), o), "NaN estimate (error_bar)")
    bad = c.real("bad")
    c.assume(c.Or(bad <= 0, bad >= 1))
    c.rejects(lambda: bu.percentile(c.arr(e), bad), "confidence outside (0,1)")
    c.rejects(lambda: bu.error_bar(c.arr(e), o, bad), "confidence outside (0,1)")
    c.rejects(lambda: bu.percentile(c.arr(e), c.nan), "confidence NaN")


def weights(c, N, nb):
    bu = c.M.boot_util
    eps = c.pick("epskind", ["default", "real", "small"])
    k0 = len(c.draw_args)
    if eps == "default":
        e = c.num(0)
        w = bu.boot_weights(N, nb)
    else:
        e = c.real("eps", 0, 2) if eps == "real" else c.frac(1, 10 ** 10)
        w = bu.boot_weights(N, nb, epsilon=e)
    c.same(tuple(w.shape), (nb, N), "weight shape")
    ds = [d for d in c.draw_args[k0:] if d[0] == "multinomial"]
    if len(ds) == 1:
        kind, args, obj = ds[0]
        counts = c.cells(obj)
        n, pv, sh = args
        c.same(n, N, "number of resampled points")
        for p in pv:
            c.eq(p, c.frac(1, N), "uniform resampling")
        c.eqs(c.cells(w), [c.Max([e, x]) for x in counts], "weights are floored counts")
    W = c.cells(w)
    for r in range(nb):
        row = W[r * N:(r + 1) * N]
        tot = c.Sum([c.ite(x <= e, c.num(0), x) for x in row])
        for x in row:
            c.le(e, x, "weight at least epsilon")
        if eps != "real":
            c.eq(c.Sum(row), N, "weights sum to N", 1e-6)


def big_counts(c, N):
    """many points, most of the draws on one of them"""
    bu = c.M.boot_util
    e = c.pick("eps", [c.num(0), c.frac(1, 10 ** 10), c.frac(3, 2)])
    w = bu.boot_weights(N, 2, epsilon=e)
    c.same(tuple(w.shape), (2, N), "weight shape")
    ds = [d for d in c.draw_args if d[0] == "multinomial"]
    if len(ds) == 1:
        c.eqs(c.cells(w), [c.Max([e, x]) for x in c.cells(ds[0][2])], "weights are floored counts (many)")


def heap(r, n, k):
    """all but three of the draws on one point"""
    row = [0] * k
    row[r % k] = n - 3
    for i in range(3):
        row[(r + 1 + i) % k] += 1
    return tuple(row)


def tasks(tier):
    T = []
    q = tier == "quick"
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        T.append(("interval", dict(n=n, m=1), None))
        T.append(("errbar", dict(n=n), None))
    for n in (2, 3):
        T.append(("interval", dict(n=n, m=2), None))
    for n in (6, 20, 21, 41) if q else (6, 7, 20, 21, 40, 41, 100, 101):
        T.append(("interval", dict(n=n, m=1, mono=True), dict(dyadic=n < 30)))
        T.append(("errbar", dict(n=n, mono=True), dict(dyadic=n < 30)))
    for n in (2, 3):
        T.append(("errbar_inf", dict(n=n), None))
    for n in (1, 2, 3):
        T.append(("orig_inf", dict(n=n), None))
    for lay in ("F", "neg", "step", "ro"):
        T.append(("interval", dict(n=3, m=2), dict(layout=lay)))
        T.append(("errbar", dict(n=3), dict(layout=lay)))
    for k in (40, 80, -60):
        T.append(("scaled", dict(n=2, k=k), None))
    T.append(("scaled", dict(n=3, k=50), None))
    T.append(("levels", {}, None))
    for n in (200, 1000, 5003) if q else (200, 1000, 3001, 5003, 12000):
        T.append(("large", dict(n=n), None))
    T.append(("default_conf", dict(n=40), None))
    T.append(("rejects", {}, None))
    for N in (5, 140, 300, 70000):
        T.append(("big_counts", dict(N=N), dict(boot_fixed=heap, boot_rows=4)))
    for N, nb in ((1, 1), (2, 1), (2, 2), (3, 2), (4, 3)):
        T.append(("weights", dict(N=N, nb=nb), None))
    return T
