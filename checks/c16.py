"""C16 split_df."""
from checks.c17 import need, exact, distinct

BOUNDS = "frames of 1..4 rows, 2..3 columns of symbolic values (ties and order free), integer, text and repeated index labels; 1..3 simultaneous splits (ordered, linear, random; columns and index) with symbolic fractions and every random subset; declared sorted/unique columns where true; an index named like a column; equal rows; 30+ rows with two symbolic ones; sorted index with repeats"
ASSUMPTIONS = ["np.random.choice without replacement may return any subset of the requested size"]


def frame(c, n, cols, index, mono=(), uniq=()):
    """the last column holds the row number"""
    v = {k: c.vec(k, n) for k in cols}
    for k in mono:
        for i in range(n - 1):
            c.assume(v[k][i] < v[k][i + 1])
    names = list(cols) + ["id"]
    df = c.frame([[v[k][i] for k in cols] + [c.num(i)] for i in range(n)], index=index, columns=names)
    for k in uniq:  # distinct, not sorted
        o = [(2 * i + 1) % n if n % 2 else (i + 1) % n for i in range(n)]
        for a, b in zip(o, o[1:]):
            c.assume(v[k][a] < v[k][b])
    return df, v


def want_ordered(c, v, frac):
    rank, nd = distinct(c, v)
    k = max(1, need(c, frac, nd))
    return [r < k for r in rank]


def want_linear(c, v, frac):
    v = [c.num(x) for x in v]
    mn, mx = c.Min(v), c.Max(v)
    thr = (1 - frac) * mn + frac * mx
    if c.concrete and not exact(list(v) + [frac]):
        for x in v:
            c.assume(x == mn or abs(x - thr) > 1e-9 * (1 + abs(thr)))
    return [bool(x <= thr) or bool(x == mn) for x in v]


def appearance(c, v):
    """group number of each row, groups numbered by first appearance"""
    g, reps = [], []
    for x in v:
        for j, y in enumerate(reps):
            if bool(x == y):
                g.append(j)
                break
        else:
            g.append(len(reps))
            reps.append(x)
    return g


def want_random(c, v, frac, draw):
    g = appearance(c, v)
    sel = set(int(i) for i in c.cells(draw))
    return [k in sel for k in g]


def chk_parts(c, df, v, parts, train, test, index):
    n = len(index)
    rest = [not a and not b for a, b in zip(train, test)]
    for part, m, name in zip(parts, (train, test, rest), ("train", "test", "unused")):
        rows = [i for i in range(n) if m[i]]
        c.same(list(part.columns), list(df.columns), name + ": columns")
        c.same(len(part), len(rows), name + ": number of rows")
        c.eqs(c.cells(part["id"]), [c.num(i) for i in rows], name + ": rows in original order", 0)
        c.same(list(part.index), [index[i] for i in rows], name + ": index labels")
        for k in v:
            c.eqs(c.cells(part[k]), [v[k][i] for i in rows], name + ": values of " + k, 0)


def joint(c, n, splits, index, mono=(), decl=(), uniq=(), iname=None):
    """splits: list of (column or None, kind)"""
    D = c.M.data_splitter
    cols = sorted({k for k, _ in splits if k is not None} | {"x"})
    df, v = frame(c, n, cols, index, mono, uniq)
    df.index.name = iname
    snap = c.snapshot(df)
    fr = {}
    sp = {}
    for j, (k, kind) in enumerate(splits):
        fr[k] = c.real("frac%d" % j, 0, 1)
        sp[k] = ({"r": "random", "o": "ordered", "l": "linear"}[kind], fr[k])
    sp0 = dict(sp)
    kw = {}
    if "sorted" in decl:
        kw["assume_sorted"] = list(mono)
    if "unique" in decl:
        kw["assume_unique"] = list(mono) + list(uniq)
    kw0 = {k: list(q) for k, q in kw.items()}
    parts = D.split_df(df, sp, **kw)
    ds = [d for d in c.draw_args if d[0] == "choice"]
    c.check(c.And(len(parts) == 3), "three parts")
    nr = [k for k, kind in splits if kind == "r"]
    masks = []
    ok = len(ds) == len(nr)
    for k, kind in splits:
        col = [c.num(i) if not isinstance(i, str) else i for i in index] if k is None else v[k]
        if kind == "o":
            masks.append(want_ordered(c, col, fr[k]) if not isinstance(col[0], str) else want_str(c, col, fr[k]))
        elif kind == "l":
            masks.append(want_linear(c, col, fr[k]))
        elif ok:
            masks.append(want_random(c, col, fr[k], ds[nr.index(k)][2]))
    c.same(sp, sp0, "splits not modified")
    c.same(kw, kw0, "declarations not modified")
    c.same((list(df.index), list(df.columns)), (list(index), cols + ["id"]), "frame labels not modified")
    c.unchanged(df, snap, "frame")
    c.same(sorted(int(q) for p in parts for q in (c.cells(p["id"]) if not c.concrete else p["id"])), list(range(n)), "the parts cover the rows without overlap")
    if len(splits) == 1:
        c.same(len(parts[2]), 0, "single split: nothing unused")
    if not ok:
        return
    train = [all(m[i] for m in masks) for i in range(n)]
    test = [not any(m[i] for m in masks) for i in range(n)]
    chk_parts(c, df, v, parts, train, test, index)


def repeats(c, kind):
    """rows that are equal in every respect stay separate rows"""
    D = c.M.data_splitter
    a, b = c.real("a"), c.real("b")
    f = c.real("frac", 0, 1)
    df = c.frame([[a, b], [a, b], [b, a], [a, b]], index=["k", "k", "m", "k"], columns=["x", "y"])
    parts = D.split_df(df, {"x": (kind, f)})
    c.same([sum(1 for p in parts for q in p.index if q == v) for v in ("k", "m")], [3, 1], "every row in exactly one part")
    for p, name in zip(parts, ("train", "test", "unused")):
        for lab, e in (("k", (a, b)), ("m", (b, a))):
            rows = [i for i, q in enumerate(p.index) if q == lab]
            if lab == "k":
                c.check(c.And(len(rows) in (0, 3)), name + ": equal rows stay together")
            for col, v in zip(("x", "y"), e):
                z = c.cells(p[col])
                c.eqs([z[i] for i in rows], [v] * len(rows), name + ": values", 0)


def large(c, n, kind):
    """many rows, two of them symbolic"""
    D = c.M.data_splitter
    v = [c.num((i * 37) % (n + 1 + n % 2)) for i in range(n)]
    v[n // 3] = c.real("a", 0, n)
    v[n - 2] = v[1]
    index = [i % (n - 3) for i in range(n)][::-1]
    df = c.frame([[v[i], c.num(i)] for i in range(n)], index=index, columns=["x", "id"])
    f = c.pick("frac", [c.frac(1, 2), c.frac(13, 16), c.frac(1, 64)])
    parts = D.split_df(df, {"x": (kind, f)})
    w = want_ordered(c, v, f) if kind == "ordered" else want_linear(c, v, f)
    chk_parts(c, df, {"x": v}, parts, w, [not q for q in w], index)


def want_str(c, col, frac):
    u = sorted(set(col))
    k = max(1, need(c, frac, len(u)))
    return [u.index(x) < k for x in col]


def default(c, n, index):
    """80-20 random split on the index"""
    D = c.M.data_splitter
    df, v = frame(c, n, ["x"], index)
    tr, te, un = D.split_df(df)
    c.same(len(un), 0, "nothing unused")
    tl, el = set(tr.index), set(te.index)
    c.check(c.And(not (tl & el)), "equal index labels on one side")
    nd = len(set(index))
    c.same(len(tl), -(-8 * nd // 10), "80 percent of the index labels")
    ids = [int(q) for q in c.cells(tr["id"])]
    chk_parts(c, df, v, (tr, te, un), [i in ids for i in range(n)], [i not in ids for i in range(n)], index)


def rejects(c):
    D = c.M.data_splitter
    df, v = frame(c, 2, ["x", "y"], [0, 1])
    kind = c.pick("kind", ["none", "frac", "nan", "col", "type"])
    if kind == "none":
        c.rejects(lambda: D.split_df(df, {}), "no splits")
    elif kind == "frac":
        f = c.real("frac")
        c.assume(c.Or(f < 0, f > 1))
        t = c.pick("t", ["random", "ordered", "linear"])
        c.rejects(lambda: D.split_df(df, {"x": (t, f)}), "fraction outside [0,1]")
    elif kind == "nan":
        df = c.frame([[v["x"][0], c.nan], [v["x"][1], v["y"][0]]], index=[0, 1], columns=["x", "y"])
        t = c.pick("t", ["random", "ordered", "linear"])
        c.rejects(lambda: D.split_df(df, {"y": (t, c.frac(1, 2))}), "null values")
    elif kind == "col":
        c.rejects(lambda: D.split_df(df, {"z": ("random", c.frac(1, 2))}), "unknown column")
    else:
        c.rejects(lambda: D.split_df(df, {"x": ("foo", c.frac(1, 2))}), "unknown split type")


def tasks(tier):
    q = tier == "quick"
    T = []
    rep3, rep4 = ["b", "a", "a"], [5, 2, 5, 2]
    for kind in "olr":
        for n, idx in ((1, [3]), (2, ["k", "k"]), (3, rep3)):
            T.append(("joint", dict(n=n, splits=[("x", kind)], index=idx), None))
        T.append(("joint", dict(n=3, splits=[(None, kind)], index=[4, 1, 4]), None))
        T.append(("joint", dict(n=4, splits=[(None, kind)], index=[7, 3, 5, 3]), None))
        T.append(("joint", dict(n=4, splits=[(None, kind)], index=[1, 1, 1, 4]), None))
        T.append(("joint", dict(n=4, splits=[("x", kind)], index=rep4, mono=["x"], decl=["sorted", "unique"]), None))
        T.append(("joint", dict(n=3, splits=[("y", kind)], index=rep3, mono=["x"], decl=["sorted", "unique"]), None))
    T.append(("joint", dict(n=3, splits=[(None, "o")], index=["b", "a", "b"]), None))
    for a in "olr":
        for b in "olr":
            T.append(("joint", dict(n=2, splits=[("x", a), ("y", b)], index=["k", "k"]), None))
            T.append(("joint", dict(n=3, splits=[("x", a), (None, b)], index=[2, 1, 2], mono=["x"]), None))
            T.append(("joint", dict(n=3, splits=[(None, a), ("y", b)], index=[2, 1, 2], mono=["y"], decl=["unique"]), None))
    for a in "olr":  # declared unique, not sorted; another column sorted, not declared unique
        T.append(("joint", dict(n=4, splits=[("x", a)], index=rep4, uniq=["x"], decl=["unique"]), None))
        T.append(("joint", dict(n=3, splits=[("x", a), ("y", "o")], index=rep3, mono=["y"], uniq=["x"], decl=["sorted", "unique"]), None))
        T.append(("joint", dict(n=3, splits=[("y", a), ("x", "l")], index=rep3, mono=["y"], uniq=["x"], decl=["sorted", "unique"]), None))
    T.append(("joint", dict(n=3, splits=[("x", "o"), ("y", "l")], index=rep3), None))
    for a in "olr":  # an index named like a column
        T.append(("joint", dict(n=3, splits=[("x", a)], index=[2, 1, 0], iname="x"), None))
        T.append(("joint", dict(n=3, splits=[(None, a)], index=[2, 0, 1], iname="x"), None))
    T.append(("joint", dict(n=2, splits=[("x", "o"), ("y", "l"), (None, "r")], index=[1, 0]), None))
    T.append(("joint", dict(n=3, splits=[("x", "r"), ("y", "o"), (None, "l")], index=[1, 0, 1], mono=["x", "y"]), None))
    if not q:
        for a in "olr":
            for b in "olr":
                T.append(("joint", dict(n=3, splits=[("x", a), ("y", b)], index=rep3), None))
                T.append(("joint", dict(n=4, splits=[("x", a), (None, b)], index=rep4, mono=["x"]), None))
    for n, idx in ((1, [3]), (3, rep3), (4, [7, 3, 5, 3]), (5, list("abcde"))):
        T.append(("default", dict(n=n, index=idx), None))
    for kind in ("random", "ordered", "linear"):
        T.append(("repeats", dict(kind=kind), None))
    for n in (40, 120):
        for kind in ("ordered", "linear"):
            T.append(("large", dict(n=n, kind=kind), None))
    T.append(("rejects", {}, None))
    return T
