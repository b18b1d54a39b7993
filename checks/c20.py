"""C20 print_estimate: the text reads back as the decimal mean and error bar."""
from checks.common import text

BOUNDS = "all means of 1..6 (and 31) digits with exponents -5..3, both signs and zero, all error bars of 1..4 and 7 digits of the same precision, zero (any precision), NaN and infinite; shifts -4..6; clip values +-10^-2..10^3 and two-digit ones, either or both, default and custom texts for non-finite means"
ASSUMPTIONS = ["decimal formatting as documented (model symx/decshim.py; unknown digits travel through the real string code as private-use characters)"]

NF = [{}, {"inf": r"\infty", "-inf": r"-\infty", "nan": "--"}]


def nocomma(c, s):
    return s.replace(",", "") if isinstance(s, str) else s


def run(c, *a, **k):
    """print_estimate; ValueError -> None"""
    try:
        return c.M.sciprint.print_estimate(*a, **k)
    except ValueError as e:
        return None


def eb_of(c, kind, nd, ex):
    if kind == "fin":
        return c.dec("e", nd, ex), True
    if kind == "zero":
        return c.D((0, (0,), c.pick("ez", [ex, 0, -7, 2]))), True
    return c.D({"nan": "NaN", "inf": "Infinity"}[kind]), False


def plain(c, nd, kind, end=2, exs=range(-5, 4), shifts=(0, 1, 2, 3, 4, 6, -1, -2, -3, -4)):
    """no clipping"""
    ex = c.pick("ex", exs)
    neg = c.flag("neg")
    mu = c.dec("m", nd, ex, neg, lead=0 if nd == 1 else 1)
    EB, fin = eb_of(c, kind, end, ex)
    shift = c.pick("shift", shifts)
    kw = {} if shift == 0 and c.flag("dflt") else {"shift": shift}
    out = run(c, mu, EB, **kw)
    if ex + shift > 0:
        return c.same(out, None, "a shift needing digits the mean does not have raises ValueError")
    _, _, ds, _ = c.dec_parts(mu)
    want = text(c, neg, ds, ex + shift)
    if fin:
        want += "(%s)" % "".join(c.dchar(d) for d in c.dec_parts(EB)[2])
    c.str_same(nocomma(c, out), want, "text")
    c.same("E" in out or "e" in out, False, "no exponent notation")


def clip(c, nd, ex, fmt=False, his=((1, 0), (1, 2), (25, -1), (1, -2), (1, 3)), los=((-1, 0), (-1, 3), (-25, -1), (5, -3)), shifts=(0, 2, -3)):
    """clipped on either side"""
    neg = c.flag("neg")
    mu = c.dec("m", nd, ex, neg, lead=0 if nd == 1 else 1)
    EB, fin = eb_of(c, c.pick("kind", ["fin", "nan"]), 1, ex)
    hi = c.pick("hi", [None] + list(his))
    lo = c.pick("lo", [None] + list(los))
    c.assume(hi is not None or lo is not None)
    dec = lambda t: c.D((int(t[0] < 0), tuple(int(q) for q in str(abs(t[0]))), t[1]))
    if hi and lo and lo[0] > 0 and hi[1] < -1:
        lo = (1, -3)
    kw = {}
    if hi:
        kw["max_clip"] = dec(hi)
    if lo:
        kw["min_clip"] = dec(lo)
    A, Z = ">", "<"
    if fmt:
        kw.update(above_fmt="above {0:f}", below_fmt="below {0:f}!")
        A, Z = "above ", "below "
    shift = c.pick("shift", shifts)
    out = run(c, mu, EB, shift=shift, **kw)
    v = c.dec_val(mu)
    val = lambda t: t[0] * c.q10(t[1])
    num = lambda t: text(c, t[0] < 0, [int(q) for q in str(abs(t[0]))], t[1] + shift)
    if hi and bool(v > val(hi)):
        return c.str_same(nocomma(c, out), A + num(hi), "above the upper clip")
    if lo and bool(v < val(lo)):
        return c.str_same(nocomma(c, out), Z + num(lo) + ("!" if fmt else ""), "below the lower clip")
    if ex + shift > 0:
        return c.same(out, None, "ValueError")
    want = text(c, neg, c.dec_parts(mu)[2], ex + shift)
    if fin:
        want += "(%s)" % "".join(c.dchar(d) for d in c.dec_parts(EB)[2])
    c.str_same(nocomma(c, out), want, "not clipped")


def nonfin(c):
    k = c.pick("mu", ["inf", "-inf", "nan"])
    mu = c.D({"inf": "Infinity", "-inf": "-Infinity", "nan": "NaN"}[k])
    EB = c.pick("eb", [c.D("NaN"), c.D("Infinity"), c.D("0")])
    nf = c.pick("nf", NF)
    shift = c.pick("shift", [0, 3, -3])
    kw = {}
    hi, lo = c.flag("hi"), c.flag("lo")
    if hi:
        kw["max_clip"] = c.D("1E+2")
    if lo:
        kw["min_clip"] = c.D("-1E+1")
    if nf:
        kw["non_finite_fmt"] = dict(nf)
    out = run(c, mu, EB, shift=shift, **kw)
    if k == "inf" and hi:
        want = ">" + text(c, False, [1], 2 + shift)
    elif k == "-inf" and lo:
        want = "<" + text(c, True, [1], 1 + shift)
    else:
        want = nf.get(k, k)
    c.str_same(nocomma(c, out) if "clip" in str(kw) else out, want, "non-finite mean")


def tasks(tier):
    T = [("nonfin", {}, None), ("plain", dict(nd=31, kind="fin", end=3, exs=[-12, -3]), None), ("plain", dict(nd=31, kind="nan", exs=[-20, 0]), None)]
    for nd in (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 12):
        for kind, end in [("fin", 1), ("fin", 2), ("fin", 4), ("fin", 7), ("zero", 1), ("nan", 1), ("inf", 1)]:
            T.append(("plain", dict(nd=nd, kind=kind, end=end), None))
    for nd in (1, 2, 4):
        for ex in (-3, -1, 0, 1):
            T.append(("clip", dict(nd=nd, ex=ex), None))
    T.append(("clip", dict(nd=3, ex=-1, fmt=True), None))
    for nd, ex in ((20, -19), (31, -30)):
        T.append(("clip", dict(nd=nd, ex=ex, his=[(25, -1)], los=[(-25, -1)]), None))
    for nd in (1, 3):
        T.append(("plain", dict(nd=nd, kind="fin", exs=[-40, -33, 20], shifts=[-40, 12, 30, 33, 40, -20]), None))
        T.append(("clip", dict(nd=nd, ex=-40, his=[(25, -1), (1, -39)], los=[(-25, -1), (-1, -39)], shifts=(30, 40, -30)), None))
        T.append(("clip", dict(nd=nd, ex=25, his=[(25, -1), (1, 27)], los=[(-25, -1), (-1, 26)], shifts=(-25, -40)), None))
    return T
