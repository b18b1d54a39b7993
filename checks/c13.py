"""C13 Bernstein error bars and tests."""
from checks.c12 import data, moments

BOUNDS = "N in 2..3 fully symbolic data with symbolic limits and confidence (N=6 with two distinct values); degenerate data for N in 0..3, zero, infinite and inverted ranges; N in 31..5003 with two distinct symbolic values repeated and with pinned data; equal decimal values with symbolic limits; values offset by 1e8..1e9"
ASSUMPTIONS = ["log/exp are uninterpreted strictly monotone inverse functions (exact on products); np.roots returns the exact real roots of a quadratic"]


def setup(c, N, k=None):
    x = data(c, N, k)
    lo, up = c.real("lower"), c.real("upper")
    for v in x[: (k or N)]:
        c.assume(lo <= v)
        c.assume(v <= up)
    m = c.div(c.Sum(x), N)
    v = c.div(c.Sum([(a - m) * (a - m) for a in x]), N)
    return x, lo, up, m, v


def EB_formula(c, N, k=None):
    M = c.M.mlpaper
    x, lo, up, m, v = setup(c, N, k)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    X = c.arr(x)
    snap = c.snapshot(X)
    EB = M.bernstein_EB(X, lo, up, confidence=conf)
    A = c.log(c.div(3, 1 - conf))
    lin = c.div(3 * A * (up - lo), N)
    c.eq((EB - lin) * (EB - lin) * N, v * 2 * A, "EB - 3A*range/n = std*sqrt(2A/n)")
    c.le(lin, EB, "std term non-negative")
    c.unchanged(X, snap, "data")


def EB_default(c):
    M = c.M.mlpaper
    x, lo, up, m, v = setup(c, 2)
    X = c.arr(x)
    c.eq(M.bernstein_EB(X, lo, up), M.bernstein_EB(X, lo, up, confidence=c.frac(95, 100)), "default confidence 0.95")


def agree(c, N, k=None):
    """|mean| > EB iff p < 1-c, for every c: this pins the p-value down"""
    M = c.M.mlpaper
    x, lo, up, m, v = setup(c, N, k)
    c.assume(lo < up)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    EB = M.bernstein_EB(c.arr(x), lo, up, confidence=conf)
    p = M.bernstein_test(c.arr(x), lo, up)
    c.le(0, p, "p >= 0")
    c.le(p, 1, "p <= 1")
    c.iff_lt((EB, c.Abs(m)), (p, 1 - conf), "|mean| above the bound iff p < 1 - confidence")


def root(c, N, k=None):
    """the level solves the bound equation"""
    M = c.M.mlpaper
    x, lo, up, m, v = setup(c, N, k)
    c.assume(lo < up)
    p = M.bernstein_test(c.arr(x), lo, up)
    # y >= 0 solves 3*range/n*y^2 + std*sqrt(2/n)*y = |m|;  p = min(1, 3 exp(-y^2))
    a = c.div(3 * (up - lo), N)
    b2 = c.div(v * 2, N)  # b = std*sqrt(2/n)
    b = c.sqrt(b2)
    y = c.div(-b + c.sqrt(b2 + 4 * a * c.Abs(m)), 2 * a)
    c.eq(p, c.Min([c.num(1), 3 * c.exp(-(y * y))]), "p-value is the level of the bound")


def zero_mean(c, N):
    M = c.M.mlpaper
    x, lo, up, m, v = setup(c, N)
    c.assume(c.eqv(m, 0))
    c.eq(M.bernstein_test(c.arr(x), lo, up), 1, "zero mean: p=1")


def degenerate(c):
    M = c.M.mlpaper
    kind = c.pick("kind", ["few", "inf", "zero", "infrange"])
    lo, up = c.real("lower"), c.real("upper")
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
    if kind == "few":
        n = c.pick("n", [0, 1])
        x = c.vec("x", n)
        lo = c.pick("lo", [lo, -c.inf])
        up = c.pick("up", [up, c.inf])
        for v in x:
            c.assume(lo <= v)
            c.assume(v <= up)
        c.assume(lo <= up)
        X = c.arr(x)
        c.eq(M.bernstein_EB(X, lo, up, confidence=conf), up - lo, "few points: error bar is the range")
        c.eq(M.bernstein_test(X, lo, up), 1, "few points: p=1")
    elif kind == "inf":
        n = c.pick("n", [1, 2, 3])
        x = c.vec("x", n)
        k = c.pick("k", list(range(n)))
        x[k] = c.pick("v", [c.inf, -c.inf])
        if c.flag("bothinf"):
            lo, up = -c.inf, c.inf
        elif x[k] > 0:
            up = c.inf
        else:
            lo = -c.inf
        for v in x:
            c.assume(lo <= v)
            c.assume(v <= up)
        X = c.arr(x)
        c.eq(M.bernstein_EB(X, lo, up, confidence=conf), c.inf, "non-finite data: error bar is the (infinite) range")
        c.eq(M.bernstein_test(X, lo, up), 1, "non-finite data: p=1")
    elif kind == "zero":
        n = c.pick("n", [0, 1, 2, 3])
        X = c.arr([lo] * n)
        c.eq(M.bernstein_test(X, lo, lo), 1, "zero range: p=1")
        c.eq(M.bernstein_EB(X, lo, lo, confidence=conf), 0, "zero range: zero error bar")
    else:
        n = c.pick("n", [2, 3])
        x = c.vec("x", n)
        lo = c.pick("lo", [lo, -c.inf])
        up = c.inf if c.is_fin(lo) else c.pick("up", [up, c.inf])
        for v in x:
            c.assume(lo <= v)
            c.assume(v <= up)
        c.eq(M.bernstein_test(c.arr(x), lo, up), 1, "infinite range: p=1")
        c.eq(M.bernstein_EB(c.arr(x), lo, up, confidence=conf), c.inf, "infinite range: infinite error bar")


def rejects(c, n):
    M = c.M.mlpaper
    x = c.vec("x", n)
    lo, up = c.real("lower"), c.real("upper")
    kind = c.pick("kind", ["below", "above", "nan", "inv", "nanlim", "conf"])
    conf = c.frac(3, 4)
    k = c.pick("k", list(range(n)))
    for i, v in enumerate(x):
        if i != k or kind in ("nan", "conf", "nanlim"):
            c.assume(lo <= v)
            c.assume(v <= up)
    if kind == "below":
        c.assume(x[k] < lo)
        c.assume(lo <= up)
    elif kind == "above":
        c.assume(x[k] > up)
        c.assume(lo <= up)
    elif kind == "nan":
        x[k] = c.nan
    elif kind == "inv":
        # an empty or single in-range sample with inverted limits
        c.assume(up < lo)
        x = []
    elif kind == "nanlim":
        if c.flag("which"):
            lo = c.nan
        else:
            up = c.nan
    else:
        bad = c.real("bad")
        c.assume(c.Or(bad <= 0, bad >= 1))
        c.rejects(lambda: M.bernstein_EB(c.arr(x), lo, up, confidence=bad), "confidence outside (0,1)")
        return
    X = c.arr(x)
    c.rejects(lambda: M.bernstein_EB(X, lo, up, confidence=conf), kind + " (bernstein_EB)")
    c.rejects(lambda: M.bernstein_test(X, lo, up), kind + " (bernstein_test)")


def pinned(c, data, h):
    """larger samples: fixed deviations, symbolic limits"""
    M = c.M.mlpaper
    N = len(data)
    x = [c.frac(v, 4) for v in data]
    lo, up = c.real("lower"), c.real("upper")
    for v in x:
        c.assume(lo <= v)
        c.assume(v <= up)
    m = c.div(c.Sum(x), N)
    v = c.div(c.Sum([(a - m) * (a - m) for a in x]), N)
    p = M.bernstein_test(c.arr(x), lo, up)
    if h == "root":
        a = c.div(3 * (up - lo), N)
        b2 = c.div(v * 2, N)
        y = c.div(-c.sqrt(b2) + c.sqrt(b2 + 4 * a * c.Abs(m)), 2 * a)
        c.eq(p, c.Min([c.num(1), 3 * c.exp(-(y * y))]), "p-value is the level of the bound")
    else:
        conf = c.real("conf", 0, 1, lo_open=True, hi_open=True)
        EB = M.bernstein_EB(c.arr(x), lo, up, confidence=conf)
        c.iff_lt((EB, c.Abs(m)), (p, 1 - conf), "|mean| above the bound iff p < 1 - confidence")


def deep(c, data, w):
    """very small p-values: compared on the log scale"""
    M = c.M.mlpaper
    N = len(data)
    x = [c.frac(v, 4) for v in data]
    lo, up = min(x) - c.real("dl", 0, w), max(x) + c.real("du", 0, w)
    c.assume(lo < up)
    m = c.div(c.Sum(x), N)
    v = c.div(c.Sum([(a - m) * (a - m) for a in x]), N)
    p = M.bernstein_test(c.arr(x), lo, up)
    a = c.div(3 * (up - lo), N)
    b2 = c.div(v * 2, N)
    y = c.div(-c.sqrt(b2) + c.sqrt(b2 + 4 * a * c.Abs(m)), 2 * a)
    c.assume(y * y < 600)
    c.assume(y * y > 2)
    c.eq(c.log(p), c.log(c.Min([c.num(1), 3 * c.exp(-(y * y))])), "log of a small p-value")


def scaled(c, k):
    """tiny or huge data and limits: the error bar scales, the p-value stays"""
    M = c.M.mlpaper
    u = c.frac(1, 2 ** k) if k > 0 else c.num(2 ** -k)
    N = 3
    x = [c.frac(v, 4) for v in (4, 6, -7)]
    lo, up = min(x) - c.real("dl", 0, 8), max(x) + c.real("du", 0, 8)
    conf = c.frac(7, 8)
    X = c.arr([q * u for q in x])
    EB, p = c.div(M.bernstein_EB(X, lo * u, up * u, confidence=conf), u), M.bernstein_test(X, lo * u, up * u)
    m = c.div(c.Sum(x), N)
    v = c.div(c.Sum([(a - m) * (a - m) for a in x]), N)
    A = c.log(c.div(3, 1 - conf))
    lin = c.div(3 * A * (up - lo), N)
    c.eq((EB - lin) * (EB - lin) * N, v * 2 * A, "error bar (scaled)")
    c.le(lin, EB, "std term non-negative (scaled)")
    a = c.div(3 * (up - lo), N)
    b2 = c.div(v * 2, N)
    y = c.div(-c.sqrt(b2) + c.sqrt(b2 + 4 * a * c.Abs(m)), 2 * a)
    c.eq(p, c.Min([c.num(1), 3 * c.exp(-(y * y))]), "p-value (scaled)")


def constant(c, N):
    """equal values that are not exact binary fractions"""
    M = c.M.mlpaper
    v = c.pick("v", [c.frac(1, 10), c.frac(3, 10), c.frac(-7, 10), c.frac(1, 3), c.frac(19, 10)])
    lo, up = v - c.real("dl", 1, 8), v + c.real("du", 1, 8)
    conf = c.frac(7, 8)
    A = c.log(c.div(3, 1 - conf))
    c.eq(M.bernstein_EB(c.arr([v] * N), lo, up, confidence=conf), c.div(3 * A * (up - lo), N), "error bar of equal values")
    p = M.bernstein_test(c.arr([v] * N), lo, up)
    c.eq(p, c.Min([c.num(1), 3 * c.exp(-c.div(c.Abs(v) * N, 3 * (up - lo)))]), "p-value of equal values")


def offset(c, big):
    """values far from zero keep their spread"""
    M = c.M.mlpaper
    x = [c.frac(v, 4) for v in (4, 6, -7)]
    dl, du = c.real("dl", 0, 8), c.real("du", 0, 8)
    if c.concrete:
        c.assume(float(dl * 16).is_integer() and float(du * 16).is_integer())
    conf = c.frac(7, 8)
    EB = M.bernstein_EB(c.arr([q + big for q in x]), min(x) - dl + big, max(x) + du + big, confidence=conf)
    m = c.div(c.Sum(x), 3)
    v = c.div(c.Sum([(a - m) * (a - m) for a in x]), 3)
    A = c.log(c.div(3, 1 - conf))
    lin = A * (max(x) + du - min(x) + dl)
    c.eq((EB - lin) * (EB - lin) * 3, v * 2 * A, "error bar (large values)", 1e-6)
    c.le(lin, EB, "std term non-negative (large values)")


def tasks(tier):
    q = tier == "quick"
    T = []
    for N in (2, 3):
        T.append(("EB_formula", dict(N=N), None))
    T.append(("EB_formula", dict(N=6, k=2), None))
    for N in (31, 101, 400, 2001, 5003):
        T.append(("EB_formula", dict(N=N, k=2), None))
    for r in (16, 81, 400):  # tiled: 2*sum of squares stays a perfect square
        T.append(("pinned", dict(data=[4, 6, -7] * r, h="root"), None))
        if not q:  # follows from EB_formula and root; slow queries
            T.append(("pinned", dict(data=[4, 6, -7] * r, h="agree"), None))
    T.append(("agree", dict(N=2), None))
    T.append(("agree", dict(N=6, k=2), None))
    T.append(("root", dict(N=2), None))
    for d in ([4, 6, -7], [-7, -1, -2, -3, -7], [2, 5, 7, -6, 2, 2, 2]):  # 2*sum of squares is a perfect square
        T.append(("pinned", dict(data=d, h="root"), None))
        if len(d) < 6 or not q:
            T.append(("pinned", dict(data=d, h="agree"), None))
    if not q:
        T.append(("agree", dict(N=3), None))
        T.append(("root", dict(N=3), None))
        T.append(("root", dict(N=6, k=2), None))
        T.append(("EB_formula", dict(N=4), None))
        T.append(("EB_formula", dict(N=12, k=3), None))
    T.append(("deep", dict(data=[204, 206, 193] * 16, w=8), None))
    T.append(("deep", dict(data=[-1204, -1206, -1193] * 81, w=64), None))
    T.append(("deep", dict(data=[5] * 12, w=1), None))
    for N in (3, 5, 6, 7, 10):
        T.append(("constant", dict(N=N), dict(wit=8)))
    for big in (10 ** 8, -(10 ** 9)):
        T.append(("offset", dict(big=big), dict(wit=4)))
    for k in (40, 80, -60):
        T.append(("scaled", dict(k=k), None))
    T.append(("EB_default", {}, None))
    for N in (2, 3) if q else (2, 3, 4):
        T.append(("zero_mean", dict(N=N), None))
    T.append(("degenerate", {}, None))
    for n in (1, 2, 3):
        T.append(("rejects", dict(n=n), None))
    return T
