"""C25 epsilon_noise."""

BOUNDS = "vectors of 0..4 symbolic values (every order and tie pattern), 6 strictly ordered values in a shuffled layout, 33, 300 and 1500 values of which two are symbolic, every uniform draw in [0,1), symbolic default and maximum noise"
ASSUMPTIONS = ["np.random.rand returns any values in [0,1)"]


def noise(c, n, mono=False, eps=False):
    u = c.M.util
    x = c.vec("x", n)
    if mono:
        for i in range(n - 1):
            c.assume(x[i] < x[i + 1])
        x = [x[(i * 5 + 2) % n] for i in range(n)]
    kw = {}
    d0, mx = c.frac(1, 10 ** 10), c.num(1)
    if eps:
        which = c.pick("which", ["d", "m", "dm"])
        if "d" in which:
            d0 = kw["default_epsilon"] = c.real("d0", 0, lo_open=True)
        if "m" in which:
            mx = kw["max_epsilon"] = c.real("mx", 0, lo_open=True)
    X = c.arr(x)
    snap = c.snapshot(X)
    out = c.cells(u.epsilon_noise(X, **kw))
    c.same(len(out), n, "one value per element")
    o = c.order(x)
    gaps = []
    for a, b in zip(o, o[1:]):
        if x[a] < x[b]:
            gaps.append(x[b] - x[a])
    delta = c.Min([mx] + (gaps or [d0]))
    for i in range(n):
        c.le(2 * c.Abs(out[i] - x[i]), delta, "noise at most half the smallest gap and half the maximum")
    for a, b in zip(o, o[1:]):
        if x[a] < x[b]:
            if c.concrete:
                c.assume(x[b] - x[a] > 1e-9 * (1 + abs(x[a])))
                c.check(out[a] < out[b], "distinct values keep their strict order")
            else:
                c.lt(out[a], out[b], "distinct values keep their strict order")
    c.unchanged(X, snap, "vector")


def large(c, n, late=False):
    """many points, two symbolic ones next to fixed ones"""
    u = c.M.util
    a, b = c.real("a", 0, c.frac(1, 2)), c.real("b", 0, c.frac(1, 2))
    x = [c.num(3 * ((i * 7) % 11) + 2) for i in range(n)]
    x[n - 2 if late else n // 2], x[n - 1] = a, b
    out = c.cells(u.epsilon_noise(c.arr(x)))
    gap = c.Abs(a - b)
    delta = c.ite(c.eqv(a, b), c.num(1), c.Min([c.num(1), gap]))
    c.same(len(out), n, "one value per element (many)")
    for i in range(n):
        if n <= 300 or i % 100 == 0 or i >= n - 4:
            c.le(2 * c.Abs(out[i] - x[i]), delta, "noise at most half the smallest gap and half the maximum (many)")


def spread(c):
    """the noise separates ties: two equal elements get different values for different draws"""
    u = c.M.util
    v, w = c.real("v"), c.real("w")
    out = c.cells(u.epsilon_noise(c.arr([v, v, w])))
    ds = [d[2] for d in c.draw_args]
    if len(ds) != 1 or len(c.cells(ds[0])) != 3:
        return
    r = c.cells(ds[0])
    if c.concrete:
        c.assume(abs(r[0] - r[1]) > 1e-3 and abs(v) < 1e3 and v != w)
    else:
        c.assume(c.Not(c.eqv(r[0], r[1])))
    c.check(c.Not(c.eqv(out[0], out[1])), "ties are broken")


def rejects(c, n):
    u = c.M.util
    x = c.vec("x", n)
    x[c.pick("k", list(range(n)))] = c.pick("v", [c.inf, -c.inf, c.nan])
    c.rejects(lambda: u.epsilon_noise(c.arr(x)), "non-finite vector")


def tasks(tier):
    T = []
    for n in (0, 1, 2, 3, 4):
        T.append(("noise", dict(n=n), None))
        if n < 4:
            T.append(("noise", dict(n=n, eps=True), None))
    T.append(("noise", dict(n=6, mono=True), None))
    T.append(("noise", dict(n=4, mono=True, eps=True), None))
    for n in (33, 300):
        T.append(("large", dict(n=n), None))
    T.append(("large", dict(n=1500, late=True), None))
    T.append(("spread", {}, None))
    T.append(("rejects", dict(n=1), None))
    T.append(("rejects", dict(n=3), None))
    return T
