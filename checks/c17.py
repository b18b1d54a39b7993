"""C17 splitters."""
import pandas as rpd

BOUNDS = "series of 1..4 symbolic reals with every pattern of ties and every order (1..5 rows when declared sorted/unique, up to 12 strictly ordered rows), text and integer series (beyond 2^53 too) in fixed layouts, 31 and 300 rows with one symbolic value, symbolic fraction in [0,1], every random subset; nulls and out-of-range fractions"
ASSUMPTIONS = ["np.random.choice without replacement may return any subset of the requested size"]

IDX = {1: ["q"], 2: [4, 4], 3: ["b", "a", "a"], 4: [3, 1, 2, 0], 5: list("vwxyz")}


def mk(c, v):
    return c.series(v, index=IDX.get(len(v)) or list(range(100, 100 + len(v))))


def mask(c, S, r, label):
    """list of bools, after the shape checks"""
    c.same(list(r.index), list(S.index), label + ": index")
    c.same(r.dtype.kind, "b", label + ": boolean")
    return [bool(q) for q in c.cells(r)]


def distinct(c, v):
    """rank of each value among the sorted distinct values (forks), number of distinct values"""
    o = c.order(v)
    rank = [0] * len(v)
    k = 0
    for a, b in zip(o, o[1:]):
        if v[a] < v[b]:
            k += 1
        rank[b] = k
    return rank, k + 1


def exact(vals):
    return all(float(v * 64).is_integer() and abs(v) < 2 ** 20 for v in vals)


def need(c, frac, nd):
    """number of distinct values wanted in training"""
    if c.concrete and not exact([frac]):
        c.assume(abs(frac * nd - round(frac * nd)) > 1e-9)
    return c.ceil_int(frac * nd)


def chk_random(c, S, v, frac, m, label):
    rank, nd = distinct(c, v)
    for i in range(len(v)):
        for j in range(i):
            if rank[i] == rank[j]:
                c.same(m[i], m[j], label + ": equal values on one side")
    c.same(len({r for r, t in zip(rank, m) if t}), need(c, frac, nd), label + ": number of distinct values in training")


def chk_ordered(c, v, frac, m, label):
    rank, nd = distinct(c, v)
    k = max(1, need(c, frac, nd))
    for i in range(len(v)):
        c.same(m[i], rank[i] < k, label + ": the smallest prefix of distinct values")


def chk_linear(c, v, frac, m, label):
    mn, mx = c.Min(v), c.Max(v)
    thr = (1 - frac) * mn + frac * mx
    for i in range(len(v)):
        if c.concrete and v[i] != mn and not exact(list(v) + [frac]):
            c.assume(abs(v[i] - thr) > 1e-9 * (1 + abs(thr)) or frac == 1)
        if c.concrete and frac == 1 or c.concrete and v[i] == mn:
            c.same(m[i], True, label + ": end points")
        else:
            c.same(m[i], bool(v[i] <= thr), label + ": up to the interpolated point")


def data(c, n, mono=None):
    v = c.vec("v", n)
    for i in range(n - 1):
        if mono == "sorted":
            c.assume(v[i] <= v[i + 1])
        elif mono == "strict":
            c.assume(v[i] < v[i + 1])
        elif mono == "down":
            c.assume(v[i + 1] < v[i])
    return v


def choices(c):
    return [d[2] for d in c.draw_args]


KW = {None: {}, "sorted": dict(assume_sorted=True), "unique": dict(assume_unique=True), "both": dict(assume_sorted=True, assume_unique=True)}


def rand(c, n, mono=None, decl=None):
    D = c.M.data_splitter
    v = data(c, n, mono)
    if decl in ("unique", "both") and mono is None:
        rank, nd = distinct(c, v)
        c.assume(nd == n)
    frac = c.real("frac", 0, 1)
    S = mk(c, v)
    snap = c.snapshot(S)
    m = mask(c, S, D.random_split_series(S, frac, **KW[decl]), "random")
    chk_random(c, S, v, frac, m, "random")
    c.unchanged(S, snap, "series")


def rand_same(c, n):
    """a declaration does not change the outcome of the same draw"""
    D = c.M.data_splitter
    v = data(c, n, "strict" if n > 3 else None)
    rank, nd = distinct(c, v)
    c.assume(nd == n)
    frac = c.frac(c.pick("k", list(range(4))), 4) + c.frac(1, 8)
    S = mk(c, v)
    r1 = mask(c, S, D.random_split_series(S, frac), "random")
    d1 = list(choices(c))
    r2 = mask(c, S, D.random_split_series(S, frac, **KW[c.pick("decl", ["unique", "both"] if n > 3 else ["unique"])]), "random")
    d2 = choices(c)[len(d1):]
    if len(d1) == len(d2) == 1 and list(map(int, c.cells(d1[0]))) == list(map(int, c.cells(d2[0]))):
        c.same(r1, r2, "declared unique: same outcome for the same draw")


def ordered(c, n, mono=None, decl=None):
    D = c.M.data_splitter
    v = data(c, n, mono)
    if decl in ("unique", "both") and mono is None:
        rank, nd = distinct(c, v)
        c.assume(nd == n)
    frac = c.real("frac", 0, 1)
    S = mk(c, v)
    snap = c.snapshot(S)
    m = mask(c, S, D.ordered_split_series(S, frac, **KW[decl]), "ordered")
    chk_ordered(c, v, frac, m, "ordered")
    c.unchanged(S, snap, "series")


def multiples(c, n):
    """fractions that are exact multiples of 1/n"""
    D = c.M.data_splitter
    k = c.pick("k", list(range(n + 1)))
    v = data(c, n, c.pick("mono", ["strict", "down"]))
    S = mk(c, v)
    m = mask(c, S, D.ordered_split_series(S, c.frac(k, n)), "ordered")
    c.same(sum(m), max(1, k), "ordered: exact multiple of 1/n")


def linear(c, n, mono=None, decl=None):
    D = c.M.data_splitter
    v = data(c, n, mono)
    if decl in ("unique", "both") and mono is None:
        rank, nd = distinct(c, v)
        c.assume(nd == n)
    frac = c.real("frac", 0, 1)
    S = mk(c, v)
    snap = c.snapshot(S)
    m = mask(c, S, D.linear_split_series(S, frac, **KW[decl]), "linear")
    chk_linear(c, v, frac, m, "linear")
    c.unchanged(S, snap, "series")


def linear_rounding(c):
    """constant series: everything is in training, whatever the rounding"""
    D = c.M.data_splitter
    s = c.frac(c.pick("s", [1, 3, 7, -3, 10, 33]), c.pick("d", [10, 3]))
    f = c.frac(c.pick("f", [1, 2, 3, 7, 9]), 10)
    S = mk(c, [s, s])
    m = mask(c, S, D.linear_split_series(S, f, assume_sorted=c.flag("srt")), "linear")
    c.same(m, [True, True], "linear: constant series")


def linear_ends(c):
    """fraction 1 puts everything in training and fraction 0 only the minima, whatever the rounding"""
    D = c.M.data_splitter
    a, b = c.pick("ends", [(-3.3, 0.4), (0.1, 0.7), (0.3, 1.1), (-1e17, 3.0), (1e-17, 1.0), (0.1, 1e16 + 2), (2 ** 53 - 1.0, 2 ** 53 + 2.0)])
    a, b = c.frac(a), c.frac(b)
    v = [b, a, b, a]
    S = mk(c, v)
    m = mask(c, S, D.linear_split_series(S, c.num(1)), "linear")
    c.same(m, [True] * 4, "linear: fraction 1")
    m = mask(c, S, D.linear_split_series(S, c.num(0)), "linear")
    c.same(m, [False, True, False, True], "linear: fraction 0")
    S = mk(c, [a, a, b])
    m = mask(c, S, D.linear_split_series(S, c.num(1), assume_sorted=True), "linear")
    c.same(m, [True] * 3, "linear: fraction 1 (sorted)")


def large(c, n, what):
    """many rows: m distinct fixed values, one of them symbolic within its gap"""
    D = c.M.data_splitter
    nd0 = nd = n - n // 3 if what == "ordered" else 7 if what == "linear" else 4
    z = c.real("z", 10 * (nd // 2) - 4, 10 * (nd // 2) + 4)
    lv = [c.num(10 * k) for k in range(nd)]  # few distinct values for the random and linear splits
    lv[nd // 2] = z
    pos = [(i * 11 + 3) % nd for i in range(n)]
    v = [lv[k] for k in pos]
    nd = len(set(pos))
    rank = {k: j for j, k in enumerate(sorted(set(pos)))}
    kk = c.pick("k", sorted({0, 1, nd // 3, nd - 1, nd}))
    f = c.frac(kk, nd) if what == "ordered" else c.frac(2 * kk + 1, 2 * nd) if kk < nd else c.num(1)
    S = mk(c, v)
    if what == "ordered":
        m = mask(c, S, D.ordered_split_series(S, f), "ordered")
        k = max(1, kk)
        c.same(m, [rank[p] < k for p in pos], "ordered: the smallest prefix of distinct values (many)")
    elif what == "linear":
        m = mask(c, S, D.linear_split_series(S, f), "linear")
        top = 10 * max(pos)
        want = []
        for p in pos:
            thr = f * top  # minimum 0
            if c.concrete and p == nd0 // 2:
                c.assume(abs(z - thr) > 1e-6)
            want.append(bool(lv[p] <= thr))
        c.same(m, want, "linear: up to the interpolated point (many)")
    else:
        m = mask(c, S, D.random_split_series(S, f), "random")
        tr = {p for p, t in zip(pos, m) if t}
        c.same(all(t == (p in tr) for p, t in zip(pos, m)), True, "random: equal values on one side (many)")
        c.same(len(tr), min(kk + 1, nd) if kk < nd else nd, "random: number of distinct values in training (many)")


def objects(c, vals):
    """text and integer series"""
    D = c.M.data_splitter
    frac = c.real("frac", 0, 1)
    if isinstance(vals[0], str) and vals[0].startswith("2020-"):
        vals = [rpd.Timestamp(q) for q in vals]
    S = rpd.Series(vals, index=IDX[len(vals)])
    v = [sorted(set(vals)).index(q) for q in vals]
    nd = len(set(vals))
    srt = list(vals) == sorted(vals)
    if c.flag("ord"):
        m = mask(c, S, D.ordered_split_series(S, frac, assume_sorted=srt, assume_unique=nd == len(vals)), "ordered")
        k = max(1, need(c, frac, nd))
        for i in range(len(v)):
            c.same(m[i], v[i] < k, "ordered: the smallest prefix of distinct values")
    else:
        m = mask(c, S, D.random_split_series(S, frac), "random")
        chk_random(c, S, v, frac, m, "random")
    c.same(list(S), list(vals), "series not modified")


def rejects(c, n):
    D = c.M.data_splitter
    f = c.pick("f", ["random_split_series", "ordered_split_series", "linear_split_series"])
    f = getattr(D, f)
    v = data(c, n, "strict")
    kind = c.pick("kind", ["null", "neg", "big", "nanfrac"])
    kw = KW[c.pick("decl", [None, "both"])]
    frac = c.real("frac")
    if kind == "null":
        v[c.pick("k", list(range(n)))] = c.nan
        c.assume(0 <= frac)
        c.assume(frac <= 1)
    elif kind == "neg":
        c.assume(frac < 0)
    elif kind == "big":
        c.assume(frac > 1)
    else:
        frac = c.nan
    c.rejects(lambda: f(mk(c, v), frac, **kw), kind)


def tasks(tier):
    q = tier == "quick"
    T = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for f in ("rand", "ordered", "linear"):
            T.append((f, dict(n=n), None))
            if n > 1:
                T.append((f, dict(n=n, mono="sorted", decl="sorted"), None))
                T.append((f, dict(n=n, decl="unique"), None))
                T.append((f, dict(n=n, mono="strict", decl="both"), None))
    for f in ("rand", "ordered", "linear"):
        T.append((f, dict(n=4, mono="sorted", decl="sorted"), None))
        T.append((f, dict(n=5, mono="strict"), None))
        T.append((f, dict(n=4 if f == "rand" else 7, mono="down", decl="unique"), None))
    T.append(("ordered", dict(n=4), None))
    T.append(("linear", dict(n=4), None))
    T.append(("ordered", dict(n=10, mono="down"), None))
    T.append(("ordered", dict(n=12, mono="strict", decl="both"), None))
    for n in (1, 3, 5, 7, 10):
        T.append(("multiples", dict(n=n), dict(wit=30)))
    if not q:
        T.append(("multiples", dict(n=25), dict(wit=60)))
    T.append(("linear_rounding", {}, dict(wit=200)))
    T.append(("linear_ends", {}, dict(wit=200)))
    for n in (31, 300):
        for what in ("ordered", "linear", "random"):
            T.append(("large", dict(n=n, what=what), None))
    for n in (2, 3, 4):
        T.append(("rand_same", dict(n=n), None))
    for vals in (["b", "a", "b"], ["a", "b", "c", "d"], ["x"], [3, 1, 3, 2], [2, 2], ["b", "B", "a", "b"], [2 ** 53 + 1, 2 ** 53, 2 ** 53 + 2], [-(2 ** 62), 2 ** 62 + 1, 2 ** 62, 2 ** 62 + 1], [True, False, True], ["2020-01-01 10:00", "2020-01-01 09:00", "2020-01-02", "2020-01-01 10:00"], ["2020-01-01", "2020-02-01 00:00:00.000000001", "2020-02-01"], ["a", "ab", "abc"], [1.5, 1.25, 1.5, 1.75]):
        T.append(("objects", dict(vals=vals), None))
    for n in (1, 3):
        T.append(("rejects", dict(n=n), None))
    return T
