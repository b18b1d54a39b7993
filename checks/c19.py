"""C19 decimalize: error bars and p-values rounded up, means rounded half-up to the error bar's last digit."""
import pandas as rpd

BOUNDS = "every error bar in [1e-3, 1e3) (one decade per instance; also 0, NaN, inf, and the decades around 1e-12 and 1e6), every mean in [-2000, 2000] (and around 1e20, and fixed ones up to 2^107), every p-value in [0,1]; err_digits 1..4, pval_digits 1..5 and 30, default_digits 1..6, limits 10^-2..10^2 or none; tables of 1..3 methods x 1..3 metrics with rows, metrics and stats in any order; error bars around 1e-25 and 1e-40; limits of metrics not in the table; means and errors down to 1e-150"
ASSUMPTIONS = ["decimal.Decimal as documented (model symx/decshim.py: exact float conversion, context rounding, quantize)"]

STATS = ["mean", "error", "p"]


def table(c, rows, metrics, data, order=STATS):
    """data[(row, metric)] = (mean, error, p)"""
    cols = rpd.MultiIndex.from_tuples([(m, s) for m in metrics for s in order], names=["metric", "stat"])
    return c.frame([[data[(r, m)][STATS.index(s)] for m in metrics for s in order] for r in rows], index=rpd.Index(rows, name="method"), columns=cols)


def cell(out, r, m, s):
    return out.loc[r, (m, s)]


def decade(c, x, k=-14):
    """k with 10^k <= x < 10^(k+1)"""
    while not bool(x < c.q10(k + 1)):
        k += 1
    return k


def ck_up(c, d, x, digits, label, k0=-14):
    """d is x rounded up to at most `digits` significant digits"""
    c.same(c.dec_kind(d), "fin", label + " finite")
    x, v, e = c.exact(x), c.dec_val(d), c.dec_exp(d)
    u = c.q10(decade(c, x, k0) - digits + 1)
    c.check(x <= v, label + " not below the exact value")
    c.check(v < x + u, label + " less than one unit above")
    c.check(v < c.q10(e + digits), label + " significant digits")


def ck_half(c, d, x, e, label):
    """d is x rounded half-up (away from zero) to a multiple of 10^e"""
    x, v = c.exact(x), c.dec_val(d)
    h = c.q10(e) / 2
    if bool(x < 0):
        c.check(c.And(v - h < x, x <= v + h), label + " rounded half-up")
    else:
        c.check(c.And(v - h <= x, x < v + h), label + " rounded half-up")


def ck_default(c, d, x, digits, label, k0=-14):
    c.same(c.dec_kind(d), "fin", label + " finite")
    v, e = c.dec_val(d), c.dec_exp(d)
    ax = c.exact(x)
    ax = -ax if bool(ax < 0) else ax
    if bool(ax == 0):
        return c.check(v == 0, label + " zero")
    k = decade(c, ax, k0) - digits + 1
    ck_half(c, d, x, k, label)
    v = -v if bool(v < 0) else v
    c.check(v < c.q10(e + digits), label + " significant digits")
    # a value that has no more digits than that may be kept with fewer, else the last digit is 10^k (10^(k+1) on a carry)
    c.check(c.Or(v == ax, v == c.q10(e + digits - 1), c.num(e) == k), label + " last digit")


def ck_p(c, d, p, k, label):
    if c.is_nan(p):
        return c.same(c.dec_kind(d), "nan", label + " NaN kept")
    c.same(c.dec_kind(d), "fin", label)
    c.same(c.dec_exp(d), -k, label + " decimals")
    v, p = c.dec_val(d), c.exact(p)
    c.check(c.And(p <= v, v < p + c.q10(-k)), label + " rounded up")
    c.check(c.And(0 <= v, v <= 1), label + " in [0,1]")


def one(c, lo, hi, digits, mu_max=2000):
    """one cell, all error bars in [lo, hi)"""
    err = c.real("err", lo, hi, hi_open=True)
    mu = c.real("mu", -mu_max, mu_max)
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, c.nan)})
    kw = {} if digits == 2 and c.flag("default") else {"err_digits": digits}
    out = c.M.sciprint.decimalize(tbl, **kw)
    EB, m, p = [cell(out, "a", "f", s) for s in ("error", "mean", "p")]
    ck_up(c, EB, err, digits, "error")
    c.same(c.dec_kind(m), "fin", "mean finite")
    c.same(c.dec_exp(m), c.dec_exp(EB), "mean has the precision of its error bar")
    ck_half(c, m, mu, c.dec_exp(EB), "mean")
    ck_p(c, p, c.nan, 4, "p")


HARD = [0.1, 0.3, 0.15, 2.5, 2.675, 0.07, 1e-5, 123.45, 1e-17, 0.99999999999999, 1.2000000000000002]


def hard(c, digits):
    """floats that differ from their shortest decimal text"""
    i, k = c.pick("i", list(range(len(HARD)))), c.pick("k", [1, 4, 7])
    err, mu = c.frac(HARD[i]), c.frac((HARD[(i + k) % len(HARD)]) * (-1 if k == 4 else 1))
    pv = c.frac([0.1, 0.3, 0.0001, 0.7, 1e-17, 0.99999999999999][(i + k) % 6])
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, pv)})
    out = c.M.sciprint.decimalize(tbl, err_digits=digits)
    EB, m, p = [cell(out, "a", "f", s) for s in ("error", "mean", "p")]
    c.same(c.dec_kind(EB), "fin", "error finite")
    x, v, e = c.exact(err), c.dec_val(EB), c.dec_exp(EB)
    c.check(x <= v, "error not below the exact value")
    c.check(v < x + c.q10(e), "error less than one unit above")
    c.same(c.dec_exp(m), e, "mean has the precision of its error bar")
    ck_half(c, m, mu, e, "mean")
    ck_p(c, p, pv, 4, "p")
    out = c.M.sciprint.decimalize(table(c, ["a"], ["f"], {("a", "f"): (mu, c.nan, pv)}), default_digits=digits)
    ck_default(c, cell(out, "a", "f", "mean"), mu, digits, "mean without error bar", -20)


def wide(c):
    """more than 28 digits between the mean and the last digit of its error bar"""
    err = c.real("err", 1e-12, 2e-12)
    mu = c.real("mu", 1e20, 2e20)
    pv = c.real("pv", 0.25, 0.75)
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, pv)})
    out = c.M.sciprint.decimalize(tbl, pval_digits=30)
    EB, m, p = [cell(out, "a", "f", s) for s in ("error", "mean", "p")]
    ck_up(c, EB, err, 2, "error")
    c.same(c.dec_exp(m), c.dec_exp(EB), "mean has the precision of its error bar")
    ck_half(c, m, mu, c.dec_exp(EB), "mean")
    ck_p(c, p, pv, 30, "p")


def tiny(c, k):
    """very small means and error bars"""
    u = float("1e-%d" % k)
    err = c.real("err", u, 2 * u)
    mu = c.real("mu", 50 * u, 60 * u)
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, c.nan)})
    out = c.M.sciprint.decimalize(tbl)
    EB, m = [cell(out, "a", "f", s) for s in ("error", "mean")]
    ck_up(c, EB, err, 2, "tiny error", -k - 2)
    c.same(c.dec_exp(m), c.dec_exp(EB), "tiny mean has the precision of its error bar")
    ck_half(c, m, mu, c.dec_exp(EB), "tiny mean")


def huge(c):
    """means with more digits than the default decimal precision"""
    mu = c.frac(c.pick("mu", [2.0 ** 100, -(2.0 ** 97), 2.0 ** 100 + 2.0 ** 60, 1e30, 123456789.0 ** 4]))
    err = c.frac(c.pick("err", [1.0, 0.5, 7.0, 1e-3]))
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, c.nan)})
    out = c.M.sciprint.decimalize(tbl)
    EB, m = [cell(out, "a", "f", s) for s in ("error", "mean")]
    c.same(c.dec_exp(m), c.dec_exp(EB), "mean has the precision of its error bar")
    ck_half(c, m, mu, c.dec_exp(EB), "mean")


def many(c, nr, nm):
    """many rows or metrics, a few symbolic cells"""
    rows, metrics = ["r%d" % i for i in range(nr)][::-1], ["q%d" % i for i in range(nm)]
    data = {}
    for i, r in enumerate(rows):
        for j, m in enumerate(metrics):
            n = 1 + (i * 7 + j * 11) % 50
            data[(r, m)] = (c.frac(10 * n + 1, 8), c.frac(2 * n + 1, 128), c.frac(n, 64))
    for r, m in ((rows[0], metrics[0]), (rows[-1], metrics[-1])):
        data[(r, m)] = (c.real("mu" + r + m, 20, 20.5), c.real("er" + r + m, 0.0312, 0.0318), c.real("p" + r + m, 0.05011, 0.05019))
    lim = {metrics[-1]: 0} if nm > 1 else {}
    out = c.M.sciprint.decimalize(table(c, rows, metrics, data), EB_limit=lim)
    c.same(lim, {metrics[-1]: 0} if nm > 1 else {}, "limits not modified")
    for (r, m), (mu, er, p) in data.items():
        EB = cell(out, r, m, "error")
        ck_up(c, EB, er, 2, "error %s %s" % (r, m))
        ck_half(c, cell(out, r, m, "mean"), mu, c.dec_exp(EB), "mean %s %s" % (r, m))
        ck_p(c, cell(out, r, m, "p"), p, 4, "p %s %s" % (r, m))


def free(c, lo, hi, digits, eb):
    """error bar zero, NaN, infinite or beyond its limit: the mean keeps default_digits digits"""
    mu = c.real("mu", lo, hi)
    kw = {} if digits == 5 and c.flag("default") else {"default_digits": digits}
    err, want = {"0": (c.num(0), "fin"), "nan": (c.nan, "nan"), "inf": (c.inf, "inf")}.get(eb, (None, "inf"))
    if eb == "lim":
        err = c.real("err", 10.5, 11)
        kw["EB_limit"] = {"g": 3, "f": 1}
    pv = c.real("pv", 0, 1)
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, pv)})
    out = c.M.sciprint.decimalize(tbl, **kw)
    EB = cell(out, "a", "f", "error")
    c.same(c.dec_kind(EB), want, "error bar kept")
    if eb == "0":
        c.check(c.dec_val(EB) == 0, "zero error bar kept")
    ck_default(c, cell(out, "a", "f", "mean"), mu, digits, "mean")
    ck_p(c, cell(out, "a", "f", "p"), pv, 4, "p")


def nonfin(c):
    """non-finite means come with undefined error bars and are kept"""
    mu = c.pick("mu", [c.inf, -c.inf, c.nan])
    err = c.pick("err", [c.nan, c.inf, 0])
    tbl = table(c, ["a"], ["f"], {("a", "f"): (mu, err, c.nan)})
    out = c.M.sciprint.decimalize(tbl)
    c.same(c.dec_kind(cell(out, "a", "f", "mean")), "nan" if c.is_nan(mu) else "inf" if mu > 0 else "-inf", "mean kept")


def pval(c, k):
    pv = c.real("pv", 0, 1)
    tbl = table(c, ["a"], ["f"], {("a", "f"): (c.num(1), c.nan, pv)})
    out = c.M.sciprint.decimalize(tbl, **({} if k == 4 and c.flag("default") else {"pval_digits": k}))
    ck_p(c, cell(out, "a", "f", "p"), pv, k, "p")


def limit(c, digits, f="f", e="e", absent=False):
    """errors above 10**EB_limit become infinite, others do not; every metric has its own limit"""
    L = c.pick("L", [-2, -1, 0, 1, 2, None])
    L2 = c.pick("L2", [5, -5] if absent else [None, 5, -5])
    err = c.real("err", 0, 1200, lo_open=True)
    mu = c.num(3)
    c.assume(err >= 0.0005)
    lim = {}
    if L is not None:
        lim[f] = L
    if L2 is not None:
        lim[e] = L2
    data = {("a", f): (mu, err, c.nan), ("a", e): (mu, c.num(2), c.nan)}
    tbl = table(c, ["a"], [f] if absent else [f, e], data)
    out = c.M.sciprint.decimalize(tbl, err_digits=digits, EB_limit=lim)
    EB = cell(out, "a", f, "error")
    big = L is not None and bool(c.exact(err) > c.q10(L))
    c.same(c.dec_kind(EB), "inf" if big else "fin", "error bar limit")
    if not big:
        ck_up(c, EB, err, digits, "error")
        c.same(c.dec_exp(cell(out, "a", f, "mean")), c.dec_exp(EB), "precision of the mean")
    if absent:  # limit of a metric that is not in the table
        return
    c.same(c.dec_kind(cell(out, "a", e, "error")), "inf" if L2 == -5 else "fin", "the other metric's limit")


def layout(c, rows, metrics, order, unused=False):
    """every entry stays at its own row and column"""
    data = {}
    for i, r in enumerate(rows):
        for j, m in enumerate(metrics):
            n = 1 + i * len(metrics) + j
            mu = c.real("mu%d" % n, 10 * n + 0.1, 10 * n + 0.9)
            data[(r, m)] = (mu, c.real("er%d" % n, 0.01 * n + 0.0012, 0.01 * n + 0.0018), c.real("p%d" % n, 0.05 * n + 0.00011, 0.05 * n + 0.00019))
    tbl = table(c, rows, metrics, data, order)
    if unused:
        metrics = metrics[1:]
        tbl = tbl[metrics]
    snap = c.snapshot(tbl)
    out = c.M.sciprint.decimalize(tbl)
    c.same(list(out.index), list(tbl.index), "rows")
    c.same(list(out.columns), list(tbl.columns), "columns")
    c.same((out.index.name, list(out.columns.names)), ("method", ["metric", "stat"]), "names")
    for r in rows:
        for m in metrics:
            mu, er, p = data[(r, m)]
            EB = cell(out, r, m, "error")
            ck_up(c, EB, er, 2, "error %s %s" % (r, m))
            ck_half(c, cell(out, r, m, "mean"), mu, c.dec_exp(EB), "mean %s %s" % (r, m))
            ck_p(c, cell(out, r, m, "p"), p, 4, "p %s %s" % (r, m))
    c.unchanged(tbl, snap, "table")


O = {"dy_den": (16, 1 << 20, 1 << 40)}


def tasks(tier):
    T = [("nonfin", {}, O), ("wide", {}, O), ("huge", {}, dict(O, wit=30)), ("many", dict(nr=40, nm=1), O), ("many", dict(nr=3, nm=12), O)]
    decs = [(1e-3, 1e-2), (1e-2, 0.1), (0.1, 1.0), (1.0, 10.0), (10.0, 100.0), (100.0, 1000.0)]
    if tier == "thorough":
        decs += [(1e-4, 1e-3), (1e-5, 1e-4), (1e3, 1e4), (1e4, 1e5)]
    for lo, hi in decs:
        for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            T.append(("one", dict(lo=lo, hi=hi, digits=d), O))
    T.append(("one", dict(lo=0.1, hi=1.0, digits=4), O))
    T.append(("one", dict(lo=1e6, hi=1e7, digits=2, mu_max=1e9), O))
    T.append(("one", dict(lo=1e-12, hi=1e-11, digits=2), O))
    for eb in ("0", "nan", "inf", "lim"):
        for d in (1, 5) if tier == "quick" else (1, 2, 3, 5, 6):
            T.append(("free", dict(lo=0.05, hi=200, digits=d, eb=eb), O))
    for d in (2, 3, 4):
        T.append(("free", dict(lo=-20, hi=-0.5, digits=d, eb="nan"), O))
    T.append(("free", dict(lo=-2, hi=-1, digits=6, eb="0"), O))
    T.append(("free", dict(lo=0, hi=0, digits=5, eb="0"), O))
    for d in (1, 2, 3):
        T.append(("hard", dict(digits=d), dict(O, wit=3)))
    for k in (1, 2, 3, 4, 5):
        T.append(("pval", dict(k=k), O))
    for d in (1, 2):
        T.append(("limit", dict(digits=d), O))
        T.append(("limit", dict(digits=d, f=0, e=1), O))
        T.append(("limit", dict(digits=d, f="Log loss", e="log loss"), O))
    for e in ("default", "*"):
        T.append(("limit", dict(digits=2, e=e, absent=True), O))
    for k in (25, 40, 150):
        T.append(("tiny", dict(k=k), O))
    T.append(("layout", dict(rows=["b", "a", "c"], metrics=["y", "x"], order=["mean", "error", "p"]), O))
    T.append(("layout", dict(rows=["b", "a"], metrics=["y", "x"], order=["p", "mean", "error"]), O))
    T.append(("layout", dict(rows=["a"], metrics=["y", "z", "x"], order=["error", "mean", "p"]), O))
    T.append(("layout", dict(rows=["b", "a"], metrics=["x", "z", "y"], order=["mean", "error", "p"], unused=True), O))
    return T
