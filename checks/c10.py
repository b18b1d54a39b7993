"""C10 bootstrap p-values."""
import numpy as np

BOUNDS = "significance: n_boot 1..5 fully symbolic estimates and scalar or paired reference (infinite entries up to n=3), symbolic confidence; n_boot 21, 41 with sorted estimates; mean-based test/error bar: N in 1..3, n_boot 1..2 with every multinomial draw, and n_boot=1000 (the default) with two distinct draws; N=60, 400, 1001 with two distinct symbolic values and fixed draws; five fixed integer estimates against symbolic references"
ASSUMPTIONS = ["np.random.multinomial returns any non-negative integer row summing to n"]


def pv(c, e, ref):
    n = len(e)
    r = ref if isinstance(ref, list) else [ref] * n
    mult = {}  # identical terms are counted together
    for a, b in zip(e, r):
        k = (id(a), id(b))
        mult[k] = (a, b, mult.get(k, (0, 0, 0))[2] + 1)
    le = c.Sum([c.ite(a <= b, m, 0) for a, b, m in mult.values()])
    ge = c.Sum([c.ite(a >= b, m, 0) for a, b, m in mult.values()])
    return c.Min([c.num(1), c.div(2 * c.Min([le, ge]), n)])


def sig_scalar(c, n, infs=False):
    bu = c.M.boot_util
    e = c.vec("e", n)
    if infs:
        e = [c.pick("k%d" % i, [v, c.inf, -c.inf]) for i, v in enumerate(e)]
    r = c.real("r")
    est = c.arr(e)
    snap = c.snapshot(est)
    p = bu.significance(est, r)
    want = pv(c, e, r)
    c.eq(p, want, "two-sided p-value")
    if want <= 0:
        c.eq(p * 2 ** 33, 0, "p-value exactly zero")
    c.le(0, p, "p>=0")
    c.le(p, 1, "p<=1")
    c.unchanged(est, snap, "estimates")
    c.eq(bu.significance(c.arr([-x for x in e]), -r), p, "negation")


def sig_ints(c, dtype):
    """integer estimates against any reference"""
    bu = c.M.boot_util
    e = [3, 1, 4, 1, 5]
    r = c.real("r", 0, 6)
    c.eq(bu.significance(np.array(e, dtype=dtype), r), pv(c, e, r), "p-value of integer estimates")
    rr = [c.real("r%d" % i, 0, 6) for i in range(3)]
    c.eq(bu.significance(np.array(e[:3], dtype=dtype), c.arr(rr)), pv(c, e[:3], rr), "paired p-value of integer estimates")


def sig_paired(c, n, infs=False):
    bu = c.M.boot_util
    e, r = c.vec("e", n), c.vec("r", n)
    if infs:
        e = [c.pick("k%d" % i, [v, c.inf, -c.inf]) for i, v in enumerate(e)]
        r = [c.pick("l%d" % i, [v, c.inf, -c.inf]) for i, v in enumerate(r)]
    p = bu.significance(c.arr(e), c.arr(r))
    c.eq(p, pv(c, e, r), "paired p-value")
    c.eq(bu.significance(c.arr(r), c.arr(e)), p, "exchange of roles")
    if infs:
        return
    c.eq(bu.significance(c.arr([a - b for a, b in zip(e, r)]), 0), p, "paired equals differences against 0")


def coherent(c, n, mono=False):
    bu = c.M.boot_util
    e = c.vec("e", n)
    if mono:
        for i in range(n - 1):
            c.assume(e[i] < e[i + 1])
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    r = c.real("r")
    est = c.arr(e)
    LB, UB = bu.percentile(est, conf)
    p = bu.significance(est, r)
    c.imp_lt((r, LB), (p, 1 - conf), "reference below the interval is significant")
    c.imp_lt((UB, r), (p, 1 - conf), "reference above the interval is significant")


def sig_rejects(c, n):
    bu = c.M.boot_util
    e, r = c.vec("e", n), c.vec("r", n)
    k = c.pick("k", list(range(n)))
    e2, r2 = list(e), list(r)
    e2[k] = c.nan
    r2[k] = c.nan
    c.rejects(lambda: bu.significance(c.arr(e2), r[0]), "NaN estimate")
    c.rejects(lambda: bu.significance(c.arr(e), c.nan), "NaN reference")
    c.rejects(lambda: bu.significance(c.arr(e), c.arr(r2)), "NaN paired reference")


def draws(c):
    return [d[2] for d in c.draw_args if d[0] == "multinomial"]


def wmeans(c, x, W):
    N = len(x)
    w = c.cells(W)
    memo = {}
    out = []
    for r in range(len(w) // N):
        row = w[r * N : (r + 1) * N]
        k = tuple(id(q) for q in row)
        if k not in memo:
            memo[k] = (row, c.div(c.Sum([q * v for q, v in zip(row, x)]), N))
        out.append(memo[k][1])
    return out


def mean_test(c, N, nb):
    m = c.M.mlpaper
    x = c.vec("x", N)
    X = c.arr(x)
    p = m.boot_test(X, n_boot=nb)
    ds = draws(c)
    if len(ds) == 1:
        c.same(len(c.cells(ds[0])), N * nb, "draw size")
        c.eq(p, pv(c, wmeans(c, x, ds[0]), c.num(0)), "bootstrap test of weighted means")
    c.le(0, p, "p>=0")
    c.le(p, 1, "p<=1")


def mean_EB(c, N, nb):
    from checks.c09 import q_idx

    m = c.M.mlpaper
    x = c.vec("x", N)
    conf = c.pick("conf", [c.frac(1, 2), c.frac(7, 8), c.frac(95, 100)])
    EB = m.boot_EB(c.arr(x), confidence=conf, n_boot=nb)
    ds = draws(c)
    if len(ds) == 1:
        mu = wmeans(c, x, ds[0])
        s = [mu[i] for i in c.order(mu)]
        lo, hi = q_idx(c, nb, conf)
        o = c.div(c.Sum(x), N)
        c.eq(EB, c.Max([s[hi] - o, o - s[lo]]), "bootstrap error bar of the mean")
    c.le(0, EB, "EB>=0")


def both(c, N):
    """error bar and p-value use one common set of weights; default of 1000 replications"""
    from checks.c09 import q_idx

    m = c.M.mlpaper
    x = c.vec("x", N)
    conf = c.frac(7, 8)
    mu0, EB, p = m.get_mean_EB_test(c.arr(x), confidence=conf, method="boot")
    ds = draws(c)
    if len(ds) >= 1:
        mu = wmeans(c, x, ds[0])
        c.eq(p, pv(c, mu, c.num(0)), "p-value from the common weights")
        s = [mu[i] for i in c.order(mu)]
        lo, hi = q_idx(c, len(mu), conf)
        o = c.div(c.Sum(x), N)
        c.eq(EB, c.Max([s[hi] - o, o - s[lo]]), "error bar from the common weights")


def large(c, N, nb):
    """many data points with two distinct symbolic values, fixed draws"""
    from checks.c09 import q_idx

    m = c.M.mlpaper
    v = c.vec("v", 2)
    x = [v[(i + i // 3) % 2] for i in range(N)]
    conf = c.frac(7, 8)
    p, EB = m.boot_test(c.arr(x), n_boot=nb), m.boot_EB(c.arr(x), confidence=conf, n_boot=nb)
    ds = draws(c)
    if len(ds) != 2:
        return
    c.eq(p, pv(c, wmeans(c, x, ds[0]), c.num(0)), "bootstrap test of weighted means (many)")
    mu = wmeans(c, x, ds[1])
    s = [mu[i] for i in c.order(mu)]
    lo, hi = q_idx(c, nb, conf)
    o = c.div(c.Sum(x), N)
    c.eq(EB, c.Max([s[hi] - o, o - s[lo]]), "bootstrap error bar of the mean (many)")


def typed(c, data, dtype, nb):
    """data of integer or boolean type"""
    from checks.c09 import q_idx

    m = c.M.mlpaper
    X = np.array(data, dtype=dtype)
    x = [c.num(int(v)) for v in X]
    conf = c.frac(7, 8)
    N = len(x)
    p = m.boot_test(X, n_boot=nb)
    ds = draws(c)
    if len(ds) == 1:
        c.eq(p, pv(c, wmeans(c, x, ds[0]), c.num(0)), "bootstrap test of weighted means (%s)" % dtype)
    k = len(ds)
    EB = m.boot_EB(X, confidence=conf, n_boot=nb)
    ds = draws(c)[k:]
    if len(ds) == 1:
        mu = wmeans(c, x, ds[0])
        s = [mu[i] for i in c.order(mu)]
        lo, hi = q_idx(c, nb, conf)
        o = c.div(c.Sum(x), N)
        c.eq(EB, c.Max([s[hi] - o, o - s[lo]]), "bootstrap error bar of the mean (%s)" % dtype)
    c.same([int(v) for v in X], [int(np.dtype(dtype).type(v)) for v in data], "data not modified")


def spread_draw(r, n, k):
    """a fixed multinomial row: all of the count on every (r+2)-th entry"""
    idx = list(range(r % 2, k, r + 2))
    row = [0] * k
    for i in range(n):
        row[idx[i % len(idx)]] += 1
    return tuple(row)


def degenerate(c):
    m = c.M.mlpaper
    n = c.pick("n", [0, 1, 2, 3])
    x = c.vec("x", n)
    if n >= 2:
        k = c.pick("k", list(range(n)))
        x[k] = c.pick("v", [c.inf, -c.inf])
    nb = c.pick("nb", [1, 7])
    X = c.arr(x)
    c.eq(m.boot_test(X, n_boot=nb), 1, "p=1 for degenerate data")
    c.eq(m.boot_EB(X, n_boot=nb), c.inf, "infinite error bar for degenerate data")
    if n:
        y = list(x)
        y[0] = c.nan
        c.rejects(lambda: m.boot_test(c.arr(y)), "NaN data")
        c.rejects(lambda: m.boot_EB(c.arr(y)), "NaN data")


def tasks(tier):
    q = tier == "quick"
    T = []
    for n in (1, 2, 3, 4, 5):
        T.append(("sig_scalar", dict(n=n), None))
        T.append(("sig_paired", dict(n=n), None))
        if n <= (3 if q else 4):
            T.append(("coherent", dict(n=n), None))
            T.append(("sig_rejects", dict(n=n), None))
    for n in (1, 2, 3):
        T.append(("sig_scalar", dict(n=n, infs=True), None))
        if n < 3 or not q:
            T.append(("sig_paired", dict(n=n, infs=True), None))
    for n in (9, 21) if q else (9, 20, 21, 41):
        T.append(("coherent", dict(n=n, mono=True), None))
    for N, nb in ((2, 1), (2, 2), (3, 1), (2, 3)) if q else ((2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1)):
        T.append(("mean_test", dict(N=N, nb=nb), dict(boot_fork=True)))
        T.append(("mean_EB", dict(N=N, nb=nb), dict(boot_fork=True)))
    T.append(("both", dict(N=2), dict(boot_fork=True, boot_rows=2)))
    for dt in ("int64", "int8", "uint8", "float32"):
        T.append(("sig_ints", dict(dtype=dt), None))
    T.append(("degenerate", {}, None))
    for d, dt in (([3, -1], "int64"), ([1, -2, 2], "int8"), ([True, False], "bool"), ([100, 120], "int8")):
        T.append(("typed", dict(data=d, dtype=dt, nb=2 if len(d) < 3 else 1), dict(boot_fork=True)))
    for lay in ("neg", "step", "ro"):
        T.append(("sig_paired", dict(n=3), dict(layout=lay)))
        T.append(("mean_EB", dict(N=2, nb=2), dict(layout=lay, boot_fork=True)))
    T.append(("large", dict(N=3, nb=1500), dict(boot_fixed=spread_draw, boot_rows=8)))
    T.append(("large", dict(N=4, nb=2600), dict(boot_fixed=spread_draw, boot_rows=8)))
    for N, nb in ((60, 3), (400, 3), (1001, 2)):
        T.append(("large", dict(N=N, nb=nb), dict(boot_fixed=spread_draw, boot_rows=8)))
    return T
