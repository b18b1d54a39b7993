"""C15 loss summary table."""
from checks.c10 import draws, pv, wmeans
from checks.c14 import clipped
from checks.common import mcols

BOUNDS = "1..2 metrics x 1..3 methods x 1..3 rows of symbolic losses, column order shuffled, metrics and methods in any order with repeated or textual row labels, limits absent, finite or one-sided and symbolic, symbolic confidence; methods t and bernstein; boot with 1 metric x 2 methods x 2 rows (every draw); 60 rows of two distinct symbolic losses per column, 2 metrics x 12 methods and 11 metrics x 2 methods with a few symbolic columns; repeated calls on the same arguments; limits of metrics not in the table; means compared exactly (2^28 offset); one infinite loss of either method"
ASSUMPTIONS = ["standard deviation, one-sample t-test and polynomial roots are uninterpreted permutation-invariant functions of the sample (decided exactly in C12-C14)", "Student-t and log as in C12/C13"]

IDX = {1: [7], 2: ["r", "r"], 3: [5, 2, 2]}


def table(c, vals, metrics, methods, order=None, idx=None, extra=()):
    """vals[(metric, method)] -> list of rows; columns laid out in the given order"""
    cols = order or [(a, b) for a in metrics for b in methods]
    N = len(vals[cols[0]])
    data = [[vals[k][i] for k in cols] for i in range(N)]
    mi = mcols(cols, ["metric", "method"], extra)
    return c.frame(data, index=idx or IDX[N], columns=mi)


def losses(c, metrics, methods, N, lims, spread=True):
    vals = {}
    for a in metrics:
        lo, up = lims.get(a, (-c.inf, c.inf))
        for b in methods:
            v = c.vec("%s_%s_" % (a, b), N)
            for q in v:
                c.assume(lo <= q)
                c.assume(q <= up)
            if spread and N > 1:
                for i in range(N - 1):
                    c.assume(v[i] < v[i + 1] if (len(str(b)) % 2) else v[i + 1] < v[i])
            vals[a, b] = v
    if spread and N > 1 and len(methods) > 1:
        for a in metrics:
            for b in methods[1:]:
                d = [p - q for p, q in zip(vals[a, methods[0]], vals[a, b])]
                c.assume(c.Not(c.eqv(d[0], d[1])))
    return vals


def expect(c, M, X, lo, up, EBm, conf):
    """(clipped error bar, p-value) of the chosen method for the sample"""
    A = c.arr(X)
    m = c.div(c.Sum(X), len(X))
    if EBm == "t":
        raw, p = M.t_EB(A, confidence=conf), M.t_test(A)
    else:
        raw, p = M.bernstein_EB(A, lo, up, confidence=conf), M.bernstein_test(A, lo, up)
    return m, clipped(c, m, raw, lo, up, c.num(0)), p


def compare(c, M, tbl, vals, metrics, methods, ref, pair, EBm, conf, lims, tag=""):
    c.same(sorted(tbl.index), sorted(methods), "one row per method" + tag)
    c.same(sorted(tbl.columns), sorted((a, s) for a in metrics for s in ("mean", "error", "p")), "one column per metric and statistic" + tag)
    for a in metrics:
        lo, up = lims.get(a, (-c.inf, c.inf))
        for b in methods:
            x = vals[a, b]
            get = lambda s: tbl.loc[b, (a, s)]
            c.eq(get("mean"), c.div(c.Sum(x), len(x)), "mean %s %s%s" % (a, b, tag))
            d = [p - q for p, q in zip(x, vals[a, ref])]
            rng = up - lo
            if not pair:
                _, EB, _ = expect(c, M, x, lo, up, EBm, conf)
                c.eq(get("error"), EB, "error %s %s%s" % (a, b, tag))
            if b == ref:
                c.eq(get("p"), c.nan, "NaN p-value of the reference %s%s" % (a, tag))
                if pair:
                    c.eq(get("error"), c.nan, "NaN error of the reference %s%s" % (a, tag))
                continue
            _, EB, p = expect(c, M, d, -rng, rng, EBm, conf)
            c.eq(get("p"), p, "paired p-value %s %s%s" % (a, b, tag))
            if pair:
                c.eq(get("error"), EB, "paired error %s %s%s" % (a, b, tag))


def mklims(c, metrics, kind):
    lims = {}
    for i, a in enumerate(metrics):
        k = kind[i]
        if k == "both":
            lo, up = c.real("lo_%s" % a), c.real("up_%s" % a)
            c.assume(lo <= up)
            lims[a] = (lo, up)
        elif k == "lo":
            lims[a] = (c.real("lo_%s" % a), c.inf)
    return lims


def summary(c, metrics, methods, ref, N, EBm, lim, cfree=False, spread=True, other=None):
    M = c.M.mlpaper
    lims = mklims(c, metrics, lim)
    if other:  # limits of metrics that are not in the table
        lims[other] = (c.num(0), c.num(1))
    vals = losses(c, metrics, methods, N, lims, spread)
    conf = c.real("conf", 0, 1, lo_open=True, hi_open=True) if cfree else c.frac(7, 8)
    pair = c.flag("pair")
    t = table(c, vals, metrics, methods)
    snap = c.snapshot(t)
    ref = "".join(list(ref)) if isinstance(ref, str) else ref  # equal, not identical
    tbl = M.loss_summary_table(t, ref, pairwise_CI=pair, confidence=conf, method_EB=EBm, limits=dict(lims))
    compare(c, M, tbl, vals, metrics, methods, ref, pair, EBm, conf, lims)
    c.unchanged(t, snap, "loss table")


def orders(c, metrics, methods, ref, N, EBm, lim):
    """columns and rows in another order: same cells"""
    M = c.M.mlpaper
    lims = mklims(c, metrics, lim)
    vals = losses(c, metrics, methods, N, lims)
    pair = c.flag("pair")
    conf = c.frac(7, 8)
    cols = [(a, b) for b in methods for a in metrics]
    cols = {"inter": cols, "rev": cols[::-1], "rot": cols[1:] + cols[:1]}[c.pick("lay", ["inter", "rev", "rot"])]
    perm = c.pick("rows", [list(range(N)), list(range(N))[::-1], list(range(1, N)) + [0]])
    v2 = {k: [v[i] for i in perm] for k, v in vals.items()}
    extra = c.pick("dropped", [(), (("A", "gone"),), (("0gone", methods[0]),)])
    t = table(c, v2, metrics, methods, order=cols, idx=list("zya")[:N], extra=extra)
    tbl = M.loss_summary_table(t, ref, pairwise_CI=pair, confidence=conf, method_EB=EBm, limits=lims)
    compare(c, M, tbl, vals, metrics, methods, ref, pair, EBm, conf, lims, " (reordered)")


def defaults(c):
    M = c.M.mlpaper
    vals = losses(c, ["A"], ["m", "ref"], 2, {})
    t = table(c, vals, ["A"], ["m", "ref"])
    tbl = M.loss_summary_table(t, "ref")
    pair = c.M.constants.PAIRWISE_DEFAULT
    c.same(pair, False, "default is the error bar of the loss itself")
    compare(c, M, tbl, vals, ["A"], ["m", "ref"], "ref", False, "t", c.frac(95, 100), {}, " (defaults)")
    tbl = M.loss_summary_table(t, "ref", pairwise_CI=True)
    compare(c, M, tbl, vals, ["A"], ["m", "ref"], "ref", True, "t", c.frac(95, 100), {}, " (defaults, pairwise)")


def again(c, EBm):
    """a second call, with the same limits dictionary or with the defaults, is not influenced by the first one"""
    M = c.M.mlpaper
    me = ["m", "ref"]
    lims = {"A": (c.real("lo"), c.real("up"))}
    c.assume(lims["A"][0] < lims["A"][1])
    vals = losses(c, ["A"], me, 2, lims)
    t = table(c, vals, ["A"], me)
    L = dict(lims)
    p1, p2 = c.flag("pair1"), c.flag("pair2")
    M.loss_summary_table(t, "ref", pairwise_CI=p1, confidence=c.frac(1, 2), method_EB=EBm, limits=L)
    c.same(list(L), ["A"], "keys of the limits")
    c.eqs(list(L["A"]), list(lims["A"]), "limits unmodified")
    tbl = M.loss_summary_table(t, "m", pairwise_CI=p2, confidence=c.frac(7, 8), method_EB=EBm, limits=L)
    compare(c, M, tbl, vals, ["A"], me, "m", p2, EBm, c.frac(7, 8), lims, " (second call)")
    if EBm == "t":
        M.loss_summary_table(t, "ref", pairwise_CI=p2)
        v2 = {k: [q * 2 + 100 for q in v] for k, v in vals.items()}
        tbl = M.loss_summary_table(table(c, v2, ["A"], me), "ref", pairwise_CI=p1)
        compare(c, M, tbl, v2, ["A"], me, "ref", p1, EBm, c.frac(95, 100), {}, " (second default call)")


def many(c, N, EBm, metrics, methods, lim, pair):
    """many rows (two distinct symbolic losses per column) or many methods and metrics"""
    M = c.M.mlpaper
    lims = mklims(c, metrics, lim * len(metrics))
    vals = {}
    for i, a in enumerate(metrics):
        for j, b in enumerate(methods):
            if i == 0 and (j == 1 or j == 0 and len(methods) < 5) or i == len(metrics) - 1 and j == len(methods) - 1:
                v = c.vec("%s_%s_" % (a, b), 2)
                c.assume(v[0] < v[1])
            else:
                v = [c.frac(3 * i - j, 4), c.frac(7 * j - i, 8)]
            lo, up = lims.get(a, (-c.inf, c.inf))
            for q in v:
                c.assume(lo <= q)
                c.assume(q <= up)
            vals[a, b] = [v[(k * (j + 2) + k // 3) % 2] for k in range(N)]
    cols = [(a, b) for b in methods for a in metrics]
    t = table(c, vals, metrics, methods, order=cols, idx=list(range(N)))
    tbl = M.loss_summary_table(t, methods[0], pairwise_CI=pair, confidence=c.frac(7, 8), method_EB=EBm, limits=lims)
    compare(c, M, tbl, vals, metrics, methods, methods[0], pair, EBm, c.frac(7, 8), lims, " (many)")


def rounding(c):
    """losses at a limit whose float mean rounds past it (decided by the replay on the real code)"""
    M = c.M.mlpaper
    top = c.frac(1, 10)
    who = c.pick("who", ["m", "ref"])
    pair = c.flag("pair")
    v = c.real("v", 0, c.frac(1, 16))
    vals = {("A", b): [top if b == who else v] * 3 for b in ("m", "ref")}
    t = table(c, vals, ["A"], ["m", "ref"])
    tbl = M.loss_summary_table(t, "ref", pairwise_CI=pair, limits={"A": (c.num(0), top)})
    c.eq(tbl.loc[who, ("A", "mean")], top, "mean of losses at the limit")
    c.eq(tbl.loc["ref", ("A", "p")], c.nan, "NaN p-value of the reference")


def stored(c, sc):
    """means to full precision (far from zero, close together)"""
    M = c.M.mlpaper
    v = c.real("v", 0, 1)
    if c.concrete:
        c.assume(float(v * 1024).is_integer())
    big = 2 ** 28 if sc else 0
    vals = {("A", "m"): [v + big, v + big + 1], ("A", "ref"): [c.num(big + 5), c.num(big + 2)]}
    pair = c.flag("pair")
    tbl = M.loss_summary_table(table(c, vals, ["A"], ["m", "ref"]), "ref", pairwise_CI=pair)
    c.eq(tbl.loc["m", ("A", "mean")], v + big + c.frac(1, 2), "mean to full precision", 0)
    c.eq(tbl.loc["ref", ("A", "mean")], c.num(big) + c.frac(7, 2), "mean to full precision", 0)


def infinite(c):
    """a method with an infinite loss"""
    M = c.M.mlpaper
    N = c.pick("N", [1, 2])
    vals = losses(c, ["A", "B"], ["m", "ref"], N, {})
    k = c.pick("k", list(range(N)))
    vals["A", c.pick("who", ["m", "ref"])][k] = c.pick("v", [c.inf, -c.inf])
    pair = c.flag("pair")
    t = table(c, vals, ["A", "B"], ["m", "ref"])
    tbl = M.loss_summary_table(t, "ref", pairwise_CI=pair)
    compare(c, M, tbl, vals, ["A", "B"], ["m", "ref"], "ref", pair, "t", c.frac(95, 100), {}, " (infinite loss)")


def rejects(c, N):
    M = c.M.mlpaper
    metrics, methods = ["A", "B"], ["m", "ref"]
    lims = mklims(c, metrics, ["both", "none"])
    lo, up = lims["A"]
    vals = {(a, b): c.vec(a + b, N) for a in metrics for b in methods}
    who = c.pick("who", methods)
    k = c.pick("k", list(range(N)))
    kind = c.pick("kind", ["nanA", "nanB", "below", "above", "ref"])
    for i, b in enumerate(methods):
        vals["B", b] = [c.frac(3 + (-1) ** i * (j + i)) for j in range(N)]
        if kind in ("nanB", "ref"):
            vals["A", b] = [c.frac(i + 2 * j, 4) for j in range(N)]
    for b in methods:
        for i, v in enumerate(vals["A", b]):
            if (b, i) == (who, k) and kind in ("below", "above"):
                c.assume(v < lo if kind == "below" else v > up)
            else:
                c.assume(lo <= v)
                c.assume(v <= up)
    if kind in ("nanA", "nanB"):
        vals[kind[3], who][k] = c.nan
    pair = c.flag("pair")
    EBm = "t" if kind == "nanB" else c.pick("EBm", ["t", "boot"])
    t = table(c, vals, metrics, methods)
    ref = "other" if kind == "ref" else "ref"
    c.rejects(lambda: M.loss_summary_table(t, ref, pairwise_CI=pair, method_EB=EBm, limits=lims), kind)


def two(r, n, k):
    """one typical and one extreme draw"""
    return [1] * k if r == 0 else [n] + [0] * (k - 1)


def boot(c, pair, lim):
    from checks.c09 import q_idx

    M = c.M.mlpaper
    lims = mklims(c, ["A"], [lim])
    lo, up = lims.get("A", (-c.inf, c.inf))
    vals = losses(c, ["A"], ["m", "ref"], 2, lims)
    conf = c.frac(7, 8)
    t = table(c, vals, ["A"], ["m", "ref"])
    tbl = M.loss_summary_table(t, "ref", pairwise_CI=pair, confidence=conf, method_EB="boot", limits=lims)
    ds = draws(c)
    d = [p - q for p, q in zip(vals["A", "m"], vals["A", "ref"])]

    def eb(x, lo, up):
        m = c.div(c.Sum(x), 2)
        out = []
        for D in ds:
            b = wmeans(c, x, D)
            s = [b[i] for i in c.order(b)]
            i, j = q_idx(c, len(b), conf)
            out.append(clipped(c, m, c.Max([s[j] - m, m - s[i]]), lo, up, c.num(0)))
        return out

    def anyof(v, opts, label):
        c.check(c.Or(*[c.near(v, o) for o in opts]), label)

    if not ds:
        return
    rng = up - lo
    anyof(tbl.loc["m", ("A", "p")], [pv(c, wmeans(c, d, D), c.num(0)) for D in ds], "bootstrap p-value of the paired difference")
    if pair:
        anyof(tbl.loc["m", ("A", "error")], eb(d, -rng, rng), "bootstrap error bar of the paired difference")
        c.eq(tbl.loc["ref", ("A", "error")], c.nan, "NaN error of the reference")
    else:
        for b in ("m", "ref"):
            anyof(tbl.loc[b, ("A", "error")], eb(vals["A", b], lo, up), "bootstrap error bar of %s" % b)
    c.eq(tbl.loc["ref", ("A", "p")], c.nan, "NaN p-value of the reference")
    for b in ("m", "ref"):
        c.eq(tbl.loc[b, ("A", "mean")], c.div(c.Sum(vals["A", b]), 2), "mean")


def tasks(tier):
    q = tier == "quick"
    T = []
    for EBm in ("t", "bernstein"):
        T.append(("summary", dict(metrics=["A"], methods=["ref"], ref="ref", N=2, EBm=EBm, lim=["both"]), None))
        T.append(("summary", dict(metrics=["A"], methods=["ref", "m"], ref="ref", N=2, EBm=EBm, lim=["both"]), None))
        T.append(("summary", dict(metrics=["A"], methods=["a", "ref", "zz"], ref="ref", N=1, EBm=EBm, lim=["both"]), None))
        T.append(("summary", dict(metrics=["B", "A"], methods=["a", "ref"], ref="a", N=1, EBm=EBm, lim=["both", "lo"]), None))
        T.append(("summary", dict(metrics=["B", "A"], methods=["ref", "m"], ref="ref", N=2, EBm=EBm, lim=["none", "lo"]), None))
    T.append(("summary", dict(metrics=["A"], methods=["b", "ref"], ref="ref", N=2, EBm="t", lim=["both"], spread=False), None))
    T.append(("summary", dict(metrics=["A"], methods=["b", "ref", "c"], ref="ref", N=2, EBm="t", lim=["none"], cfree=True), None))
    T.append(("summary", dict(metrics=["A"], methods=["ref", "b"], ref="ref", N=3, EBm="t", lim=["lo"]), None))
    for EBm in ("t", "bernstein"):  # names that are not text
        T.append(("summary", dict(metrics=[7, 2], methods=[30, 1], ref=1, N=2, EBm=EBm, lim=["both", "none"]), None))
    for other in ("default", "*", "A"):
        T.append(("summary", dict(metrics=["B"], methods=["m", "ref"], ref="ref", N=2, EBm="bernstein" if other == "*" else "t", lim=["none"], other=other), None))
    for sc in (0, 1):
        T.append(("stored", dict(sc=sc), None))
    T.append(("orders", dict(metrics=["B", "A"], methods=["m", "ref"], ref="ref", N=2, EBm="t", lim=["none", "lo"]), None))
    T.append(("orders", dict(metrics=["B", "A"], methods=["z", "ref", "a"], ref="z", N=1, EBm="t", lim=["both", "none"]), None))
    T.append(("orders", dict(metrics=["A"], methods=["m", "ref"], ref="m", N=3, EBm="t", lim=["none"]), None))
    if not q:
        T.append(("summary", dict(metrics=["A"], methods=["ref", "b"], ref="ref", N=3, EBm="t", lim=["both"], cfree=True), None))
        T.append(("summary", dict(metrics=["C", "B", "A"], methods=["q", "ref", "b"], ref="ref", N=2, EBm="t", lim=["none", "lo", "both"]), None))
        T.append(("orders", dict(metrics=["B", "A"], methods=["m", "ref"], ref="ref", N=2, EBm="bernstein", lim=["both", "both"]), None))
    for EBm in ("t", "bernstein"):
        T.append(("again", dict(EBm=EBm), None))
        for pair in (False, True):
            T.append(("many", dict(N=60, EBm=EBm, metrics=["A"], methods=["ref", "m"], lim=["both" if EBm != "t" else "lo"], pair=pair), None))
            T.append(("many", dict(N=2, EBm=EBm, metrics=["M%d" % i for i in range(2)], methods=["m%d" % i for i in range(12)], lim=["none"], pair=pair), None))
            T.append(("many", dict(N=2, EBm=EBm, metrics=["M%d" % i for i in range(11)], methods=["m%d" % i for i in range(2)], lim=["none"], pair=pair), None))
    T.append(("defaults", {}, None))
    T.append(("infinite", {}, None))
    T.append(("rounding", {}, None))
    T.append(("rejects", dict(N=1), None))
    T.append(("rejects", dict(N=2), None))
    for pair in (False, True):
        for lim in ("none", "both"):
            T.append(("boot", dict(pair=pair, lim=lim), dict(boot_fork=True, boot_rows=2, budget=200) if pair or not q else dict(boot_fixed=two, boot_rows=2)))
    out = []
    for f, p, o in T:
        o = dict(o or {})
        if f != "boot" and not p.get("exact"):
            o["abs_stats"] = True
        out.append((f, p, o))
    out.sort(key=lambda t: t[0] != "boot")
    return out
