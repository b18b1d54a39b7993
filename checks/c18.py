"""C18 build_lag_df."""
import numpy as np
import pandas as rpd

BOUNDS = "frames of 1..4 rows and 1..3 columns of symbolic values (plain and two-level columns; repeated, text and unordered index), 1..4 lags, strides 1..3 and -1, feature subsets of 0..2 columns in any order; dated, named and two-level indices, feature lists of any kind, stride 0; whole numbers, text, dates, truth values; 12..150 rows with 3..30 lags and three symbolic cells"
ASSUMPTIONS = ["pandas concat/shift/reorder_levels as documented (the real pandas runs on symbolic cells)"]

IDX = {1: [5], 2: ["t", "t"], 3: [9, 3, 3], 4: [3, 2, 1, 0]}


def lag(c, n, cols, feats, multi=False):
    D = c.M.data_splitter
    if multi:
        cols = [tuple(k) for k in cols]
        feats = feats and [tuple(k) for k in feats]
    n_lags = c.pick("n_lags", [1, 2, 3, 4])
    stride = c.pick("stride", [1, 2, 3, -1])
    v = {k: c.vec("c%d_" % j, n) for j, k in enumerate(cols)}
    names = list(cols)
    ci = rpd.MultiIndex.from_tuples(names, names=["u", "w"]) if multi else names
    df = c.frame([[v[k][i] for k in cols] for i in range(n)], index=IDX[n], columns=ci)
    snap = c.snapshot(df)
    kw = {}
    if feats is not None:
        kw["features"] = list(feats)
    if stride == 1 and c.flag("default"):
        out = D.build_lag_df(df, n_lags, **kw)
    else:
        out = D.build_lag_df(df, n_lags, stride=stride, **kw)
    key = (lambda k, l: tuple(k) + (l,)) if multi else (lambda k, l: (k, l))
    fs = list(cols) if feats is None else list(feats)
    want = [key(k, "L0") for k in cols] + [key(k, "L%d" % l) for l in range(1, n_lags) for k in fs]
    c.same(sorted(out.columns), sorted(want), "columns")
    c.same(list(out.index), IDX[n], "index")
    pos = {k: j for j, k in enumerate(out.columns)}
    cells = c.cells(out)
    w = len(want)
    for l in range(n_lags):
        for k in cols if l == 0 else fs:
            j = pos[key(k, "L%d" % l)]
            for i in range(n):
                s = i - l * stride
                c.eq(cells[i * w + j], v[k][s] if 0 <= s < n else c.nan, "%s lag %d row %d" % (k, l, i), 0)
    c.unchanged(df, snap, "frame")
    c.same((list(df.index), list(df.columns)), (IDX[n], names), "frame labels not modified")


def given_nan(c):
    """missing and infinite values are carried along like any other"""
    D = c.M.data_splitter
    v = [c.real("a"), c.nan, c.inf, c.real("b")]
    df = c.frame([[q] for q in v], index=IDX[4], columns=["a"])
    out = D.build_lag_df(df, 3)
    for l in range(3):
        c.eqs(c.cells(out[("a", "L%d" % l)]), [c.nan] * l + v[: 4 - l], "lag %d" % l, 0)


def forms(c):
    """feature lists of any kind, dated rows, named columns; the shift is by rows"""
    D = c.M.data_splitter
    n = 4
    v = {k: c.vec(k, n) for k in ("a", "b", "lag")}
    kind = c.pick("index", ["day", "gap", "named", "multi"])
    idx = {"day": rpd.date_range("2020-02-27", periods=n, freq="D"), "gap": rpd.DatetimeIndex(["2020-01-03", "2020-01-01", "2020-01-09", "2020-01-01"]), "named": rpd.Index([4, 3, 2, 1], name="a"), "multi": rpd.MultiIndex.from_tuples([(0, "p"), (0, "q"), (1, "p"), (1, "p")])}[kind]
    df = c.frame([[v[k][i] for k in v] for i in range(n)], index=idx, columns=rpd.Index(list(v), name=c.pick("cname", [None, "lag", "u"])))
    F = c.pick("form", [("b", "a"), "index", "array", ["lag"], "keys"])
    fs = ["lag"] if F == ["lag"] else ["b", "a"]
    feats = {"index": rpd.Index(fs), "array": np.array(fs), "keys": {k: 0 for k in fs}.keys()}[F] if isinstance(F, str) else F
    stride, lags = c.pick("stride", [(1, 3), (0, 2), (np.int64(2), np.int64(2))])
    out = D.build_lag_df(df, lags, stride, feats)
    c.same(list(out.index), list(idx), "index")
    c.same(sorted(out.columns), sorted([(k, "L0") for k in v] + [(k, "L%d" % l) for l in range(1, lags) for k in fs]), "columns")
    for l in range(lags):
        for k in v if l == 0 else fs:
            s = l * int(stride)
            c.eqs(c.cells(out[(k, "L%d" % l)]), [c.nan] * s + list(v[k][: n - s]), "%s lag %d" % (k, l), 0)


def typed(c):
    """whole numbers, text, dates and truth values"""
    D = c.M.data_splitter
    data = {"i": [2 ** 62 + 1, -3, 7], "s": ["x", "", "y"], "t": list(rpd.to_datetime(["2020-01-03", "2019-01-01", "2021-05-05"])), "b": [True, False, True]}
    df = rpd.DataFrame(data, index=[1, 1, 0])
    k0 = c.pick("col", list(data))
    st = c.pick("stride", [1, 2, -1])
    out = D.build_lag_df(df, 3, stride=st, features=[k0])
    for k in data:
        c.same(list(out[(k, "L0")]), data[k], "lag 0 of %s" % k)
    for l in (1, 2):
        got = list(out[(k0, "L%d" % l)])
        for i in range(3):
            s = i - l * st
            if 0 <= s < 3:
                c.same(got[i], data[k0][s] if k0 != "i" else float(data[k0][s]), "lag %d of %s row %d" % (l, k0, i))
            else:
                c.check(bool(rpd.isna(got[i])), "missing in lag %d of %s row %d" % (l, k0, i))


def long(c, n, lags, stride):
    D = c.M.data_splitter
    v = {k: [c.num(i * (j + 2) % 97) for i in range(n)] for j, k in enumerate(["a", "b"])}
    v["a"][n // 2], v["b"][n - 1], v["b"][0] = c.real("p"), c.real("q"), c.real("r")
    idx = [i // 2 for i in range(n)][::-1]
    df = c.frame([[v[k][i] for k in v] for i in range(n)], index=idx, columns=list(v))
    out = D.build_lag_df(df, lags, stride=stride, features=["b"])
    c.same(list(out.index), idx, "index (long)")
    c.same(sorted(out.columns), sorted([("a", "L0"), ("b", "L0")] + [("b", "L%d" % l) for l in range(1, lags)]), "columns (long)")
    for l in range(lags):
        for k in v if l == 0 else ["b"]:
            z = c.cells(out[(k, "L%d" % l)])
            c.eqs(z, [v[k][i - l * stride] if 0 <= i - l * stride < n else c.nan for i in range(n)], "%s lag %d (long)" % (k, l), 0)


def tasks(tier):
    T = [("given_nan", {}, None), ("forms", {}, None), ("typed", {}, None)]
    for n, lags, st in ((80, 14, 3), (150, 3, -20), (12, 30, 1)):
        T.append(("long", dict(n=n, lags=lags, stride=st), None))
    for n in (1, 2, 3, 4):
        T.append(("lag", dict(n=n, cols=["a"], feats=None), None))
        T.append(("lag", dict(n=n, cols=["b", "a"], feats=None), None))
        T.append(("lag", dict(n=n, cols=["c", "a", "b"], feats=["b", "c"]), None))
        T.append(("lag", dict(n=n, cols=["c", "a", "b"], feats=["a"]), None))
        T.append(("lag", dict(n=n, cols=["c", "a"], feats=[]), None))
        T.append(("lag", dict(n=n, cols=["b", "a"], feats=["a", "b"]), None))
        T.append(("lag", dict(n=n, cols=[["p", "y"], ["p", "x"], ["o", "x"]], feats=None, multi=True), None))
        T.append(("lag", dict(n=n, cols=[["p", "y"], ["p", "x"], ["o", "x"]], feats=[["p", "x"]], multi=True), None))
    return T
