"""C08 interpolation and area primitives."""
import numpy as np

BOUNDS = "2..5 symbolic points (every tie pattern), 1..2 symbolic grid points, infinite y values at chosen positions, 1..3 rows; unsorted lists up to 3 points in every order; cummax_strict on 1..5 doubles on the ulp grid [1, 1+50*2^-52] in every order; cummax_strict also around other powers of two"
ASSUMPTIONS = ["np.nextafter adds one ulp (values of cummax_strict inputs lie in one binade)", "scipy.interpolate.interp1d(kind=linear) interpolates on the segment found by searchsorted"]


def sorted_pts(c, n, strict=False, name="x"):
    x = c.vec(name, n, -50, 50)
    for i in range(n - 1):
        c.assume(x[i] < x[i + 1] if strict else x[i] <= x[i + 1])
    return x


def yvals(c, n, infs, name="v"):
    y = c.vec(name, n, -50, 50)
    if infs:
        k = c.pick(name + "_k", range(n))
        y[k] = -c.inf
    return y


def at(c, g, xs, ys, ival):
    """y of the last point at or before g"""
    r = ival
    for a, b in zip(xs, ys):
        if a <= g:
            r = b
    return r


def step(c, n, ng, iv, infs=False, mode="sorted"):
    u = c.M.util
    x = sorted_pts(c, n, strict=True)
    y = yvals(c, n, infs)
    g = c.vec("g", ng, -60, 60)
    kw = {}
    ival = None
    if iv:
        ival = c.pick("iv", [c.real("ival", -50, 50), -c.inf])
        kw["ival"] = ival
    else:
        for v in g:
            c.assume(v >= x[0])
    X, Y = x, y
    if mode == "sorted":
        kw["assume_sorted"] = True
    elif mode == "skip":
        kw.update(assume_sorted=True, skip_unique_chk=True)
    else:
        perm = c.pick("perm", mode)
        X, Y = [x[i] for i in perm], [y[i] for i in perm]
    G, AX, AY = c.arr(g), c.arr(X), c.arr(Y)
    snap = c.snapshot(G) + c.snapshot(AX) + c.snapshot(AY)
    out = c.cells(u.eval_step_func(G, AX, AY, **kw))
    c.same(len(out), ng, "one value per grid point")
    for i in range(ng):
        c.eq(out[i], at(c, g[i], x, y, ival), "step value at grid point %d" % i)
    c.unchanged(c.cells(G) + c.cells(AX) + c.cells(AY), snap, "inputs")


def prev(c, n, ng, infs=False, rows=1):
    """interp1d(kind='previous') with duplicated x"""
    u = c.M.util
    x = [sorted_pts(c, n, name="x%d_" % r) for r in range(rows)]
    y = [yvals(c, n, infs, name="v%d_" % r) for r in range(rows)]
    g = c.vec("g", ng, -50, 60)
    for v in g:
        for r in range(rows):
            c.assume(v >= x[r][0])
    out = u.interp1d(c.arr(g), c.arr(x), c.arr(y), "previous") if rows > 1 else u._interp1d(c.arr(g), c.arr(x[0]), c.arr(y[0]), kind="previous")
    out = c.cells(out)
    c.same(len(out), ng * rows, "one value per row and grid point")
    for r in range(rows):
        for i in range(ng):
            c.eq(out[r * ng + i], at(c, g[i], x[r], y[r], None), "step value row %d grid point %d" % (r, i))


def linear(c, n, ng, rows=1):
    u = c.M.util
    x = [sorted_pts(c, n, name="x%d_" % r) for r in range(rows)]
    y = [yvals(c, n, False, name="v%d_" % r) for r in range(rows)]
    g = c.vec("g", ng, -50, 50)
    for v in g:
        for r in range(rows):
            c.assume(v >= x[r][0])
            c.assume(v <= x[r][-1])
    if c.concrete:  # interpolation next to a jump is ill-conditioned
        for r in range(rows):
            for v in g:
                for a in x[r]:
                    c.assume(a == v or abs(a - v) > 1e-6)
            for a, b in zip(x[r], x[r][1:]):
                c.assume(a == b or abs(a - b) > 1e-6)
    out = u.interp1d(c.arr(g), c.arr(x), c.arr(y), "linear") if rows > 1 else u._interp1d(c.arr(g), c.arr(x[0]), c.arr(y[0]))
    out = c.cells(out)
    c.same(len(out), ng * rows, "one value per row and grid point")
    for r in range(rows):
        for i in range(ng):
            v, gg = out[r * ng + i], g[i]
            alts = []
            for j in range(n - 1):
                d = x[r][j + 1] - x[r][j]
                alts.append(c.And(x[r][j] < x[r][j + 1], x[r][j] <= gg, gg <= x[r][j + 1], c.near((v - y[r][j]) * d, (y[r][j + 1] - y[r][j]) * (gg - x[r][j])) if c.is_fin(v) else False))
            for j in range(n):
                alts.append(c.And(c.eqv(gg, x[r][j]), c.near(v, y[r][j]) if c.is_fin(v) else False))
            c.check(c.Or(*alts), "value on the segment, row %d grid point %d" % (r, i))


def areas(c, n, rows, kind, infs=False):
    u = c.M.util
    x = [sorted_pts(c, n, name="x%d_" % r) for r in range(rows)]
    y = [yvals(c, n, infs and r == 0, name="v%d_" % r) for r in range(rows)]
    X, Y = c.arr(x), c.arr(y)
    snap = c.snapshot(X) + c.snapshot(Y)
    out = c.cells(u.area(X, Y, kind))
    c.same(len(out), rows, "one area per row")
    for r in range(rows):
        tot = c.num(0)
        for j in range(n - 1):
            d = x[r][j + 1] - x[r][j]
            if kind == "previous":
                if not c.is_fin(y[r][j]):
                    if d > 0:
                        tot = -c.inf
                elif c.is_fin(tot):
                    tot = tot + y[r][j] * d
            else:
                tot = tot + c.div((y[r][j] + y[r][j + 1]) * d, 2)
        c.eq(out[r], tot, "area of row %d" % r)
    c.unchanged(c.cells(X) + c.cells(Y), snap, "inputs")


def consistent(c, n, kind):
    """area equals the area of the interpolant on a refined grid (kept points included)"""
    u = c.M.util
    x = sorted_pts(c, n, strict=True)
    y = c.vec("v", n, -50, 50)
    t = c.real("t", -50, 50)
    c.assume(x[0] < t)
    c.assume(t < x[1])
    if c.concrete:
        c.assume(min(x[1] - t, t - x[0]) > 1e-6)
    gx = [x[0], t] + x[1:]
    gy = c.cells(u._interp1d(c.arr(gx), c.arr(x), c.arr(y), kind=kind))
    a, = c.cells(u.area(c.arr([x]), c.arr([y]), kind))
    b, = c.cells(u.area(c.arr([gx]), c.arr([gy]), kind))
    c.eq(a, b, "area unchanged by refining the grid")


def unique(c, n, withy=True):
    u = c.M.util
    x = sorted_pts(c, n)
    y = c.vec("v", n, -50, 50)
    X, Y = c.arr(x), c.arr(y)
    snap = c.snapshot(X)
    ox, oy = u.unique_take_last(X, Y) if withy else u.unique_take_last(X)
    keep = [i for i in range(n) if i == n - 1 or x[i] < x[i + 1]]
    c.eqs(c.cells(ox), [x[i] for i in keep], "kept x")
    if withy:
        c.eqs(c.cells(oy), [y[i] for i in keep], "kept y")
    else:
        c.same(oy is None, True, "no y")
    c.unchanged(X, snap, "input")


def cummax(c, n, order, base=1, e=52):
    u = c.M.util
    ulp = c.frac(1, 2**e)
    base = c.num(base)
    if not c.concrete:
        c.na_ulp = ulp.z()
    k = [c.int("k%d" % i, 0, 50) for i in range(n)]
    if order:  # sorted up to ties, in a chosen direction
        for a, b in zip(k, k[1:]):
            c.assume(a <= b if order == "up" else a >= b)
    x = [base + v * ulp for v in k]
    X = c.arr(x)
    cp = c.flag("copy")
    snap = c.snapshot(X)
    out = u.cummax_strict(X, copy=cp) if not cp or c.flag("explicit") else u.cummax_strict(X)
    e = [k[0]] if n else []
    for v in k[1:]:
        e.append(c.ite(v > e[-1], v, e[-1] + 1))
    c.eqs(c.cells(out), [base + v * ulp for v in e], "smallest strictly increasing majorant", 0)
    if cp:
        c.unchanged(X, snap, "input")


def rejects(c, what, n):
    u = c.M.util
    x = c.vec("x", n, -50, 50)
    y = c.vec("v", n, -50, 50)
    g = c.real("g", -50, 50)
    if what == "unsorted":
        k = c.pick("k", range(n - 1))
        c.assume(x[k] > x[k + 1])
        c.rejects(lambda: u.unique_take_last(c.arr(x), c.arr(y)), "unsorted (unique_take_last)")
        c.rejects(lambda: u._interp1d(c.arr([g]), c.arr(x), c.arr(y), kind="previous"), "unsorted (interp1d previous)")
        c.rejects(lambda: u._interp1d(c.arr([g]), c.arr(x), c.arr(y)), "unsorted (interp1d linear)")
        c.rejects(lambda: u.eval_step_func(c.arr([g]), c.arr(x), c.arr(y), ival=0, assume_sorted=True), "unsorted (eval_step_func)")
    elif what == "dup":
        for i in range(n - 1):
            c.assume(x[i] <= x[i + 1])
        k = c.pick("k", range(n - 1))
        c.assume(c.eqv(x[k], x[k + 1]))
        s = c.flag("assume_sorted")
        c.rejects(lambda: u.eval_step_func(c.arr([g]), c.arr(x), c.arr(y), ival=0, assume_sorted=s), "duplicated x (eval_step_func)")
    elif what == "before":
        for i in range(n - 1):
            c.assume(x[i] < x[i + 1])
        c.assume(g < x[0])
        c.rejects(lambda: u.eval_step_func(c.arr([g]), c.arr(x), c.arr(y)), "grid before the first point")
        c.rejects(lambda: u._interp1d(c.arr([g]), c.arr(x), c.arr(y), kind="previous"), "extrapolation (previous)")
        c.rejects(lambda: u._interp1d(c.arr([g]), c.arr(x), c.arr(y)), "extrapolation (linear)")


def tasks(tier):
    q = tier == "quick"
    T = []
    ps = {2: [[0, 1], [1, 0]], 3: [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]}
    for iv in (False, True):
        for n in (1, 2, 3, 4):
            T.append(("step", dict(n=n, ng=1, iv=iv), None))
        T.append(("step", dict(n=3, ng=2, iv=iv, mode="skip"), None))
        T.append(("step", dict(n=3, ng=1, iv=iv, infs=True), None))
        T.append(("step", dict(n=2, ng=2, iv=iv, mode=ps[2]), None))
        T.append(("step", dict(n=3, ng=1, iv=iv, mode=ps[3]), None))
        T.append(("step", dict(n=4, ng=2, iv=iv, mode=[[3, 1, 0, 2], [2, 0, 3, 1]]), None))
    for n in (2, 3, 4):
        T.append(("prev", dict(n=n, ng=1), None))
        T.append(("linear", dict(n=n, ng=1), None))
        for k in ("previous", "linear"):
            T.append(("areas", dict(n=n, rows=1, kind=k), None))
            T.append(("consistent", dict(n=n, kind=k), None))
        T.append(("unique", dict(n=n), None))
    T.append(("prev", dict(n=3, ng=2), None))
    T.append(("prev", dict(n=3, ng=1, infs=True), None))
    T.append(("prev", dict(n=2, ng=1, rows=2), None))
    T.append(("prev", dict(n=3, ng=1, rows=2), None))
    T.append(("linear", dict(n=3, ng=2), None))
    T.append(("linear", dict(n=2, ng=1, rows=2), None))
    for k in ("previous", "linear"):
        T.append(("areas", dict(n=3, rows=3, kind=k), None))
        T.append(("areas", dict(n=5, rows=1, kind=k), None))
    T.append(("areas", dict(n=3, rows=2, kind="previous", infs=True), None))
    T.append(("areas", dict(n=4, rows=1, kind="previous", infs=True), None))
    for n in (1, 5):
        T.append(("unique", dict(n=n), None))
    T.append(("unique", dict(n=3, withy=False), None))
    for n in (1, 2, 3):
        T.append(("cummax", dict(n=n, order=None), None))
    for base, e in ((-1.5, 52), (1500, 42), (-1e6 - 100, 33)):
        T.append(("cummax", dict(n=2, order=None, base=base, e=e), None))
        T.append(("cummax", dict(n=3, order="up", base=base, e=e), None))
    T.append(("cummax", dict(n=5, order="up"), None))
    T.append(("cummax", dict(n=4, order="down"), None))
    for n in (2, 3):
        for w in ("unsorted", "dup", "before"):
            T.append(("rejects", dict(what=w, n=n), None))
    for lay in ("F", "neg", "step", "ro"):
        T += [("areas", dict(n=3, rows=2, kind=k), dict(layout=lay)) for k in ("previous", "linear")]
        T.append(("step", dict(n=3, ng=1, iv=True, mode=ps[3]), dict(layout=lay)))
        if lay != "ro":  # with copy=False it works in place
            T.append(("cummax", dict(n=3, order=None), dict(layout=lay)))
    if not q:
        T += [("prev", dict(n=5, ng=2), None), ("linear", dict(n=5, ng=1), None), ("step", dict(n=5, ng=2, iv=True), None), ("areas", dict(n=6, rows=2, kind="previous"), None), ("areas", dict(n=6, rows=2, kind="linear"), None), ("cummax", dict(n=4, order=None), None), ("unique", dict(n=7), None), ("consistent", dict(n=5, kind="linear"), None)]
    return T
