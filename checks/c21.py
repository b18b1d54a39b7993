"""C21 get_shift_range, find_shift."""
BOUNDS = "columns of 0..3 estimates: every coefficient 0..99999 (one estimate), 0..9999 (two), 0..99 (three) and both signs, exponents -5..3, every error bar of 1..3 digits, zero, NaN or infinite; moduli 1..6; single estimates with exponents -145 and 140"
ASSUMPTIONS = ["decimal formatting as documented (model symx/decshim.py)"]


def column(c, n, exs, eb, hi=99999, lo=0):
    ms, es, info = [], [], []
    for i in range(n):
        ex = c.pick("x%d" % i, exs)
        neg = c.flag("n%d" % i) if i < 2 else False
        m = c.dec_int("m%d" % i, lo, hi if i < 2 else 99, ex, neg)
        k = eb if eb != "mix" else c.pick("k%d" % i, ["fin", "nan", "zero"])
        if k == "fin":
            e = c.dec("e%d" % i, 1 + i, ex)
        else:
            e = c.D({"nan": "NaN", "inf": "Infinity", "zero": "0"}[k])
        ms.append(m)
        es.append(e)
        info.append((ex, neg, 2 + (1 + i if k == "fin" else 1) if k in ("fin", "zero") else 0))
    return ms, es, info


W0 = 60


def again(c):
    """several calls: each depends on its own arguments only"""
    sp = c.M.sciprint
    ex = c.pick("ex", [-7, -4])
    ms = [c.dec_int("m0", 1000, 9999, ex, False), c.dec_int("m1", 10, 99, ex, False)]
    es = [c.D("NaN"), c.D("NaN")]
    for mod in c.pick("mods", [(1, 3), (3, 1), (2, 5)]):
        want = [s for s in range(-30, 31) if s % mod == 0 and ex + s <= 0 and ex + 3 + s >= 0]
        k = lambda s: max(4, 1 - ex - s)
        if want:
            w0 = min(k(s) for s in want)
            c.same(abs(int(sp.find_shift(ms, es, shift_mod=mod))), min(abs(s) for s in want if k(s) == w0), "chosen shift (several calls)")


def col(c, n, mod, exs, eb, hi=9999, lo=0):
    sp = c.M.sciprint
    ms, es, info = column(c, n, exs, eb, hi, lo)
    m0, e0 = list(ms), list(es)
    dn, up, small = sp.get_shift_range(ms, mod) if mod != 1 else sp.get_shift_range(ms)
    best = sp.find_shift(ms, es, shift_mod=mod)
    nd = [len(c.dec_parts(m)[2]) for m in ms]
    W = max(W0, max(abs(ex) for ex, _, _ in info) + 30)
    dot = [s for s in range(-W, W + 1) if s % mod == 0 and all(ex + s <= 0 for ex, _, _ in info)]
    good = [s for s in dot if any(ex + k - 1 + s >= 0 for (ex, _, _), k in zip(info, nd))]
    c.same(bool(small), not good, "flag")
    want = good or [max(dot)]
    c.same([s for s in range(-W, W + 1) if s % mod == 0 and dn <= s <= up], want, "allowed shifts")
    width = lambda s: max(neg + max(k, 1 - ex - s) + w for (ex, neg, w), k in zip(info, nd))
    w0 = min(width(s) for s in want)
    c.check(best in want, "chosen shift allowed")
    if best in want:
        c.same(width(int(best)), w0, "narrowest column")
        c.same(abs(int(best)), min(abs(s) for s in want if width(s) == w0), "smallest magnitude among the narrowest")
    c.check(len(ms) == len(m0) and all(a is b for a, b in zip(ms + es, m0 + e0)), "lists not modified")


def empty(c):
    mod = c.pick("mod", [1, 3, 5])
    c.same(c.M.sciprint.find_shift([], [], shift_mod=mod), 0, "empty column")
    c.same(c.M.sciprint.find_shift([], []), 0, "empty column")


def tasks(tier):
    T = [("empty", {}, None), ("again", {}, None)]
    for mod in (1, 3, 7):
        T.append(("col", dict(n=1, mod=mod, exs=[-20, -16, 0], eb="nan", hi=10 ** 16 + 5, lo=10 ** 16 - 5), None))
        T.append(("col", dict(n=2, mod=mod, exs=[-18, 4], eb="nan", hi=99, lo=0), None))
        T.append(("col", dict(n=1, mod=mod, exs=[-145, 140], eb="nan", hi=12, lo=9), None))
        T.append(("col", dict(n=2, mod=mod, exs=[-40, -12], eb="nan", hi=101, lo=98), None))
    o = {"wit": 4, "wit_every": 40}
    q = tier == "quick"
    for mod in (1, 2, 3, 4, 5, 6):
        for eb in ("fin", "nan", "inf", "zero"):
            T.append(("col", dict(n=1, mod=mod, exs=list(range(-5, 4)), eb=eb, hi=99999), o))
        for a in ([-5, -2, 1, 3], [-4, -1, 0], [-3, 2]) if q else ([-5, -2, 1, 3], [-4, -1, 0, 2], [-3, 2, -5, 0], [-7, 4, -1]):
            T.append(("col", dict(n=2, mod=mod, exs=a, eb="fin" if mod % 2 else "mix" if len(a) < 3 else "nan", hi=999 if q and len(a) < 3 else 9999 if q else 99999), o))
    for mod in (1, 3) if q else (1, 2, 3, 4):
        T.append(("col", dict(n=3, mod=mod, exs=[-3, -1] if q else [-4, -1, 1], eb="fin", hi=99 if q else 9999), o))
    return T
