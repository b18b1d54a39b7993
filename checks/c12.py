"""C12 Student-t error bars and tests."""
import numpy as np

BOUNDS = "N in 2..4 fully symbolic data (N=6 with three distinct symbolic values repeated), symbolic confidence in (0,1); degenerate data for N in 0..3 with an infinity or NaN at any position; N=64 constant data; N in 31..5003 with two distinct symbolic values repeated"
ASSUMPTIONS = [
    "Student-t is an uninterpreted family per degrees of freedom: tail probability and quantile are strictly monotone and inverse to each other (scipy.stats.t, ttest_1samp, sem as documented)",
]


def data(c, N, k=None):
    xs = c.vec("x", k or N)
    return [xs[i % len(xs)] for i in range(N)]


def moments(c, x):
    n = len(x)
    m = c.div(c.Sum(x), n)
    v = c.div(c.Sum([(a - m) * (a - m) for a in x]), n - 1)
    return m, v


def EB_formula(c, N, k=None):
    M = c.M.mlpaper
    x = data(c, N, k)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    X = c.arr(x)
    snap = c.snapshot(X)
    EB = M.t_EB(X, confidence=conf)
    m, v = moments(c, x)
    q = c.t_q(N - 1, conf)
    c.eq(EB * EB, q * q * c.div(v, N), "squared error bar = (t quantile * standard error)^2")
    c.le(0, EB, "error bar non-negative")
    c.unchanged(X, snap, "data")


def EB_default(c, N):
    M = c.M.mlpaper
    x = data(c, N)
    c.eq(M.t_EB(c.arr(x)), M.t_EB(c.arr(x), confidence=c.frac(95, 100)), "default confidence 0.95")


def test_formula(c, N, k=None):
    M = c.M.mlpaper
    x = data(c, N, k)
    p = M.t_test(c.arr(x))
    m, v = moments(c, x)
    if c.concrete:
        c.assume(v == 0 or v > 1e-12 * (1 + m * m))
    if v > 0:
        c.eq(p, c.t_p(N - 1, c.div(m * m * N, v)), "two-sided t-test p-value", 1e-6)
    else:
        c.eq(p, c.ite(c.eqv(m, 0), 1, 0), "constant data: p=1 iff the mean is zero")


def agree(c, N, k=None):
    M = c.M.mlpaper
    x = data(c, N, k)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    m, v = moments(c, x)
    c.assume(v > 0)
    if c.concrete:
        c.assume(v > 1e-12 * (1 + m * m))
    EB = M.t_EB(c.arr(x), confidence=conf)
    p = M.t_test(c.arr(x))
    c.iff_lt((EB, c.Abs(m)), (p, 1 - conf), "zero outside the interval iff p < 1 - confidence")


def typed(c, data, dtype, off=0):
    """data of integer type, or far from zero"""
    M = c.M.mlpaper
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    N = len(data)
    if dtype:
        X, x = np.array(data, dtype=dtype), [c.num(v) for v in data]
    else:
        d = c.real("d", -4, 4)
        if c.concrete:
            c.assume(float(d * 16).is_integer())
        x = [d] + [c.num(v) for v in data[1:]]
        X = c.arr([v + off for v in x])
    EB, p = M.t_EB(X, confidence=conf), M.t_test(X)
    m, v = moments(c, x)
    q = c.t_q(N - 1, conf)
    c.eq(EB * EB, q * q * c.div(v, N), "squared error bar (integers / large values)", 1e-6)
    if dtype:
        c.eq(p, c.t_p(N - 1, c.div(m * m * N, v)), "p-value (integers)", 1e-6)


def scaled(c, N, k):
    """tiny or huge data: the error bar scales, the p-value stays"""
    M = c.M.mlpaper
    u = c.frac(1, 2 ** k) if k > 0 else c.num(2 ** -k)
    x = data(c, N)
    conf = c.frac(7, 8)
    X = c.arr([v * u for v in x])
    EB, p = c.div(M.t_EB(X, confidence=conf), u), M.t_test(X)
    m, v = moments(c, x)
    q = c.t_q(N - 1, conf)
    if c.concrete:
        c.assume(v == 0 or v > 1e-12 * (1 + m * m))
    c.eq(EB * EB, q * q * c.div(v, N), "squared error bar (scaled)")
    if v > 0:
        c.eq(p, c.t_p(N - 1, c.div(m * m * N, v)), "p-value (scaled)", 1e-6)


def constant(c, N):
    """constant data"""
    M = c.M.mlpaper
    # dyadic constants: means and deviations are exact in floats as well
    v = c.pick("v", [c.num(0), c.frac(1, 2), c.num(-3), c.num(1), c.frac(1, 2 ** 35), c.frac(-3, 2 ** 60), c.num(2 ** 70)])
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    X = c.arr([v] * N)
    c.eq(M.t_EB(X, confidence=conf), 0, "constant data: zero error bar")
    c.eq(M.t_test(X), c.ite(c.eqv(v, 0), 1, 0), "constant data: p-value")


def constant_sym(c, N):
    M = c.M.mlpaper
    v = c.real("v")
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    X = c.arr([v] * N)
    c.eq(M.t_EB(X, confidence=conf), 0, "constant data: zero error bar")
    c.eq(M.t_test(X), c.ite(c.eqv(v, 0), 1, 0), "constant data: p-value")


def degenerate(c):
    M = c.M.mlpaper
    n = c.pick("n", [0, 1, 2, 3])
    x = c.vec("x", n)
    if n >= 2:
        x[c.pick("k", list(range(n)))] = c.pick("v", [c.inf, -c.inf])
    elif n == 1:
        x[0] = c.pick("v", [x[0], c.inf, -c.inf])
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    X = c.arr(x)
    c.eq(M.t_EB(X, confidence=conf), c.inf, "degenerate data: infinite error bar")
    c.eq(M.t_test(X), 1, "degenerate data: p=1")


def rejects(c, n):
    M = c.M.mlpaper
    x = c.vec("x", n)
    y = list(x)
    y[c.pick("k", list(range(n)))] = c.nan
    if n > 1 and c.flag("withinf"):
        j = [i for i in range(n) if not c.is_nan(y[i])][0]
        y[j] = c.inf
    c.rejects(lambda: M.t_EB(c.arr(y)), "NaN data (t_EB)")
    c.rejects(lambda: M.t_test(c.arr(y)), "NaN data (t_test)")
    bad = c.real("bad")
    c.assume(c.Or(bad <= 0, bad >= 1))
    c.rejects(lambda: M.t_EB(c.arr(x), confidence=bad), "confidence outside (0,1)")
    c.rejects(lambda: M.t_EB(c.arr(x), confidence=c.nan), "confidence NaN")


def tasks(tier):
    q = tier == "quick"
    T = []
    for N in (2, 3, 4) if q else (2, 3, 4, 5, 6):
        for h in ("EB_formula", "test_formula", "agree"):
            T.append((h, dict(N=N), None))
    for N in (6, 12):
        for h in ("EB_formula", "test_formula"):
            T.append((h, dict(N=N, k=3), None))
    T.append(("agree", dict(N=9, k=3), None))
    for N in (31, 101, 400, 2001, 5003):
        T.append(("EB_formula", dict(N=N, k=2), None))
        T.append(("test_formula", dict(N=N, k=2), None))
    for d, dt in (([3, -1], "int64"), ([100, 120, 90], "int8"), ([250, 3, 40], "uint8"), ([4, 6, -7, 2], "int32")):
        T.append(("typed", dict(data=d, dtype=dt), None))
    for off in (10 ** 8, -(10 ** 9)):
        T.append(("typed", dict(data=[0, 1, -3, 5], dtype=None, off=off), dict(wit=4)))
    for N, k in ((2, 40), (3, 50), (2, -60)):
        T.append(("scaled", dict(N=N, k=k), None))
    for lay in ("neg", "step", "ro"):
        T.append(("EB_formula", dict(N=3), dict(layout=lay)))
    T.append(("EB_default", dict(N=3), None))
    for N in (2, 3, 64):
        T.append(("constant", dict(N=N), None))
    for N in (2, 4):
        T.append(("constant_sym", dict(N=N), None))
    T.append(("degenerate", {}, None))
    for n in (1, 2, 3):
        T.append(("rejects", dict(n=n), None))
    return T
