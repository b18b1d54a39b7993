"""C14 clipped error bars and the combined routines."""
from checks.c10 import draws, pv, wmeans

BOUNDS = "clip_EB: every real or infinite mu, EB, limit and real minimum; combined routines: N in 1..3 symbolic data (one entry possibly infinite), finite, one-sided, infinite and zero-width symbolic limits, symbolic confidence and minimum, methods t and bernstein; boot with N=2, the default 1000 replications drawn from two arbitrary draws; N=60 and 400 with repeated symbolic values"
ASSUMPTIONS = ["Student-t and log as in C12/C13; np.random.multinomial returns any non-negative integer row summing to n"]


def lims(c, kinds=("both", "lo", "up", "none")):
    k = c.pick("lims", list(kinds))
    lo = c.real("lower") if k in ("both", "lo") else -c.inf
    up = c.real("upper") if k in ("both", "up") else c.inf
    if k == "both":
        c.assume(lo <= up)
    if k == "zero":
        lo = up = c.real("lower")
    return lo, up


def clipped(c, mu, EB, lo, up, mn):
    """what the clipped error bar has to be (forks)"""
    if c.is_fin(mu):
        triv = c.Max([up - mu, mu - lo])
    else:
        triv = c.inf
    if EB > triv:
        return triv
    if EB < mn:
        return c.num(mn)
    return c.num(EB)


def clip(c):
    M = c.M.mlpaper
    lo, up = lims(c)
    mu = c.real("mu")
    if c.flag("mu_inf"):
        mu = c.pick("mu_s", [c.inf, -c.inf])
    EB = c.pick("EBk", [c.real("EB"), c.inf])
    mn = c.pick("mnk", [c.real("mn", 0), c.num(0)])
    c.assume(lo <= mu)
    c.assume(mu <= up)
    c.assume(2 * mn <= up - lo)
    out = M.clip_EB(mu, EB, lower=lo, upper=up, min_EB=mn)
    c.eq(out, clipped(c, mu, EB, lo, up, mn), "clipped error bar")
    if c.flag("pos"):
        c.eq(M.clip_EB(mu, EB, lo, up, mn), out, "positional call")


def clip_scaled(c, k):
    """tiny or huge values"""
    M = c.M.mlpaper
    u = c.frac(1, 2 ** k) if k > 0 else c.num(2 ** -k)
    lo, up = lims(c, ["both"])
    mu, EB, mn = c.real("mu"), c.real("EB"), c.pick("mnk", [c.real("mn", 0), c.num(0)])
    c.assume(lo <= mu)
    c.assume(mu <= up)
    c.assume(2 * mn <= up - lo)
    out = M.clip_EB(mu * u, EB * u, lower=lo * u, upper=up * u, min_EB=mn * u)
    c.eq(c.div(out, u), clipped(c, mu, EB, lo, up, mn), "clipped error bar (scaled)")


def edge(c, method, N):
    """data at a limit whose float mean rounds past it (decided by the replay on the real code)"""
    M = c.M.mlpaper
    v = c.pick("v", [c.num(q) for q in (0.1, -0.1, 0.7, 0.3)])
    lo, up = c.pick("lim", [(v, v), (v - 2, v), (v, v + 3)])
    X = c.arr([v] * N)
    kw = dict(lower=lo, upper=up, method=method)
    mu, EB = M.get_mean_and_EB(X, **kw)
    mu2, EB2, p = M.get_mean_EB_test(X, **kw)
    for m in (mu, mu2):
        c.eq(m, v, "mean of data at the limit")
        c.le(lo, m, "mean not below the limit")
        c.le(m, up, "mean not above the limit")
    for e in (EB, EB2):
        c.le(0, e, "error bar non-negative")
        c.le(e, up - lo, "error bar within the range")


def clip_default(c):
    M = c.M.mlpaper
    mu, EB = c.real("mu"), c.real("EB", 0)
    c.eq(M.clip_EB(mu, EB), EB, "no limits: unchanged")
    lo = c.real("lo")
    c.assume(lo <= mu)
    c.eq(M.clip_EB(mu, EB, lower=lo), EB, "one-sided limit: the trivial error bar is infinite")


def clip_raises(c):
    M = c.M.mlpaper
    lo, up = lims(c)
    mu, EB, mn = c.real("mu"), c.real("EB", 0), c.real("mn", 0)
    kind = c.pick("kind", ["below", "above", "min"])
    if kind == "below":
        c.assume(mu < lo)
    elif kind == "above":
        c.assume(mu > up)
    else:
        c.assume(lo <= mu)
        c.assume(mu <= up)
        c.assume(2 * mn > up - lo)
    try:
        M.clip_EB(mu, EB, lower=lo, upper=up, min_EB=mn)
    except ValueError:
        c.check(c.And(True), "ValueError")
    except AssertionError:
        c.fail("%s: raises AssertionError, not ValueError" % kind)
    else:
        c.fail("%s: accepted" % kind)


def sample(c, N, infs):
    x = c.vec("x", min(N, 4) if N < 9 else 2)
    if N >= 9:  # large samples: two distinct values
        c.assume(x[0] < x[1])
        return [x[i % 3 % 2] for i in range(N)]
    if infs:
        k = c.pick("k", list(range(N)))
        x[k] = c.pick("v", [c.inf, -c.inf])
    return x


def combined(c, N, method, lim, mn=False, infs=False, cfree=True):
    M = c.M.mlpaper
    x = sample(c, N, infs)
    lo, up = lims(c, [lim])
    for v in x:
        c.assume(lo <= v)
        c.assume(v <= up)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True) if cfree else c.frac(7, 8)
    kw = dict(lower=lo, upper=up, method=method)
    kc = dict(kw, confidence=conf)
    m0 = c.num(0)
    if mn:
        m0 = c.real("mn", 0)
        c.assume(2 * m0 <= up - lo)
        kc["min_EB"] = m0
    if lim == "none" and c.flag("defaults"):
        for d in (kw, kc):
            del d["lower"], d["upper"]
            if method == "t":
                del d["method"]
    X = c.arr(x)
    snap = c.snapshot(X)
    mu, EB = M.get_mean_and_EB(X, **kc)
    mu2, EB2, p2 = M.get_mean_EB_test(X, **kc)
    p = M.get_test(X, **kw)
    m = c.div(c.Sum(x), N)
    c.eq(mu, m, "sample mean")
    c.eq(mu2, m, "sample mean (combined)")
    if method == "t":
        raw, q = M.t_EB(X, confidence=conf), M.t_test(X)
    else:
        raw, q = M.bernstein_EB(X, lo, up, confidence=conf), M.bernstein_test(X, lo, up)
    want = clipped(c, m, raw, lo, up, m0)
    c.eq(EB, want, "clipped error bar of the method")
    c.eq(EB2, want, "clipped error bar of the method (combined)")
    c.eq(p, q, "p-value of the method")
    c.eq(p2, q, "p-value of the method (combined)")
    c.unchanged(X, snap, "data")


def boot(c, N, lim, which, mn=False):
    from checks.c09 import q_idx

    M = c.M.mlpaper
    x = c.vec("x", N)
    lo, up = lims(c, [lim])
    for v in x:
        c.assume(lo <= v)
        c.assume(v <= up)
    conf = c.pick("conf", [c.frac(1, 2), c.frac(7, 8)])
    kw = dict(lower=lo, upper=up, method="boot")
    m0 = c.num(0)
    if mn:
        m0 = c.real("mn", 0)
        c.assume(2 * m0 <= up - lo)
        kw["min_EB"] = m0
    X = c.arr(x)
    m = c.div(c.Sum(x), N)
    mu, EB, p = m, None, None
    if which == "EB":
        mu, EB = M.get_mean_and_EB(X, confidence=conf, **kw)
    elif which == "both":
        mu, EB, p = M.get_mean_EB_test(X, confidence=conf, **kw)
    else:
        p = M.get_test(X, lower=lo, upper=up, method="boot")
    c.eq(mu, m, "sample mean")
    ds = draws(c)
    if len(ds) != 1:
        return
    b = wmeans(c, x, ds[0])
    if EB is not None:
        s = [b[i] for i in c.order(b)]
        i, j = q_idx(c, len(b), conf)
        raw = c.Max([s[j] - m, m - s[i]])
        c.eq(EB, clipped(c, m, raw, lo, up, m0), "clipped bootstrap error bar")
    if p is not None:
        c.eq(p, pv(c, b, c.num(0)), "bootstrap p-value")


def default_conf(c, method):
    M = c.M.mlpaper
    x = c.vec("x", 2)
    lo, up = lims(c, ["both"])
    for v in x:
        c.assume(lo <= v)
        c.assume(v <= up)
    X = c.arr(x)
    kw = dict(lower=lo, upper=up, method=method)
    c.eqs(M.get_mean_and_EB(X, **kw), M.get_mean_and_EB(X, confidence=c.frac(95, 100), **kw), "default confidence 0.95")
    c.eqs(M.get_mean_EB_test(X, **kw), M.get_mean_EB_test(X, confidence=c.frac(95, 100), **kw), "default confidence 0.95 (combined)")


def rejects(c, N, method):
    M = c.M.mlpaper
    x = c.vec("x", N)
    lo, up = lims(c, ["both", "lo", "up"])
    k = c.pick("k", list(range(N)))
    for i, v in enumerate(x):
        if i != k:
            c.assume(lo <= v)
            c.assume(v <= up)
    kind = c.pick("kind", ["below", "above", "nan", "unknown"] + (["min"] if method != "boot" else []))
    if kind == "below":
        c.assume(x[k] < lo)
    elif kind == "above":
        c.assume(x[k] > up)
    elif kind == "nan":
        x[k] = c.nan
    elif kind == "min":  # an unattainable minimum
        c.assume(lo <= x[k])
        c.assume(x[k] <= up)
        mn = c.real("mn", 0)
        c.assume(2 * mn > up - lo)
        kw = dict(lower=lo, upper=up, method=method, min_EB=mn)
        c.rejects(lambda: M.get_mean_and_EB(c.arr(x), **kw), "unattainable minimum")
        c.rejects(lambda: M.get_mean_EB_test(c.arr(x), **kw), "unattainable minimum (combined)")
        return
    else:
        c.assume(lo <= x[k])
        c.assume(x[k] <= up)
        c.rejects(lambda: M.get_mean_and_EB(c.arr(x), lower=lo, upper=up, method="foo"), "unknown method")
        c.rejects(lambda: M.get_mean_EB_test(c.arr(x), lower=lo, upper=up, method="foo"), "unknown method")
        c.rejects(lambda: M.get_test(c.arr(x), lower=lo, upper=up, method="foo"), "unknown method")
        return
    X = c.arr(x)
    kw = dict(lower=lo, upper=up, method=method)
    c.rejects(lambda: M.get_mean_and_EB(X, **kw), kind + " (mean and error bar)")
    c.rejects(lambda: M.get_mean_EB_test(X, **kw), kind + " (combined)")
    if kind == "nan" or method == "bernstein":
        c.rejects(lambda: M.get_test(X, **kw), kind + " (test)")


def tasks(tier):
    q = tier == "quick"
    T = [("clip", {}, None), ("clip_default", {}, None), ("clip_raises", {}, None)]
    for k in (40, 80, -60):
        T.append(("clip_scaled", dict(k=k), None))
    for method in ("t", "bernstein"):
        for N in (3, 6, 10):
            T.append(("edge", dict(method=method, N=N), dict(wit_every=1)))
    for method in ("t", "bernstein"):
        for lim in ("both", "lo", "up", "none", "zero"):
            for N in (1, 2) if q else (1, 2, 3):
                T.append(("combined", dict(N=N, method=method, lim=lim), None))
                if lim in ("both", "none"):
                    T.append(("combined", dict(N=N, method=method, lim=lim, mn=True), None))
            if lim in ("lo", "up", "none"):
                T.append(("combined", dict(N=2, method=method, lim=lim, infs=True), None))
        if not q or method == "t":
            T.append(("combined", dict(N=3, method=method, lim="both", mn=True, cfree=False), None))
        T.append(("combined", dict(N=60, method=method, lim="both", mn=True), None))
        T.append(("combined", dict(N=400, method=method, lim="lo"), None))
        T.append(("default_conf", dict(method=method), None))
        for N in (1, 2) if q else (1, 2, 3):
            T.append(("rejects", dict(N=N, method=method), None))
    T.append(("rejects", dict(N=2, method="boot"), None))
    for lim in ("both", "none"):
        for w in ("EB", "both", "test"):
            T.insert(0, ("boot", dict(N=2, lim=lim, mn=lim == "both", which=w), dict(boot_fork=True, boot_rows=2, budget=200)))
    return T
