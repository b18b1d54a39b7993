"""C23 adjust_headers."""
import numpy as rnp
import pandas as rpd

BOUNDS = "every shift -30..30 (int and numpy int), with and without unit, prefixes on and off, plain and TeX, 1..3 metrics in any column order; the characters of names and units are opaque (any character but '_'); names with leading/trailing/double underscores, percent signs, braces; empty unit"
ASSUMPTIONS = []

SI = {-24: "y", -21: "z", -18: "a", -15: "f", -12: "p", -9: "n", -6: "u", -3: "m", -2: "c", -1: "d", 0: "", 3: "k", 6: "M", 9: "G", 12: "T", 15: "P", 18: "E", 21: "Z", 24: "Y"}
MORE = {1: "da", 2: "h"}
X, Y, Z, U = "\ue901\ue902", "\ue903", "\ue904", "\ue905"  # opaque characters


def want(metric, shift, unit, pre, tex):
    """set of acceptable estimate headers"""
    name = metric.replace("_", " ")
    fac = (" $\\times 10^{%d}$" if tex else " x 1e%d") % shift if shift != 0 else ""
    un = " (%s)" % unit if unit is not None else ""
    out = set()
    if unit is not None and pre and -shift in SI:
        q = r"$\mu$" if tex and shift == 6 else SI[-shift]
        out.add("%s (%s%s)" % (name, q, unit))
    else:
        out.add(name + fac + un)
        if unit is not None and pre and -shift in MORE:
            out.add("%s (%s%s)" % (name, MORE[-shift], unit))
    return {"{%s}" % h for h in out} if tex else out


def one(c, tex, names=False):
    shift = int(c.int("shift", -30, 30)) if not names else c.pick("sh", [0, 3, -6, 4, 6])
    unit = c.pick("unit", [None, U, "s"] if not names else [None, "", "m", "%"])
    pre = c.flag("prefix")
    kind = c.pick("kind", ["int", "np"])
    metric = "%s_%s_z" % (X, Y) if not names else c.pick("name", ["_a", "b_", "__", "a  b", "%d", "x 1e3", "p", "{m}"])
    sh = {metric: rnp.int64(shift) if kind == "np" else shift, "other": 5}
    ud = {"other": "kg"}
    if unit is not None:
        ud[metric] = unit
    hd = [(metric, "p"), (metric, "estimate")]
    out = c.M.sciprint.adjust_headers(hd, sh, ud, use_prefix=pre, use_tex=tex)
    c.same(isinstance(out, list) and len(out), 2, "one header per column")
    c.same(out[0], "{p}" if tex else "p", "p-value header")
    c.check(out[1] in want(metric, shift, unit, pre, tex), "estimate header")


def many(c, tex):
    """several metrics with their own shifts and units, columns in any order"""
    names = ["b_" + X, "a" + Z, "c"]
    n = c.pick("n", [1, 2, 3])
    ms = names[:n]
    sh = {m: int(c.int("s%d" % i, lo, lo + 3)) for i, (m, lo) in enumerate(zip(ms, (-3, 0, 6)))}
    ud = {m: U + str(i) for i, m in enumerate(ms) if c.flag("u%d" % i)}
    cols = [(m, s) for m in ms for s in ("estimate", "p")]
    if c.flag("rev"):
        cols = cols[::-1]
    s0, u0 = dict(sh), dict(ud)
    ix = rpd.MultiIndex.from_tuples(cols, names=["metric", "stat"])
    kw = {} if not tex and c.flag("dflt") else dict(use_prefix=True, use_tex=tex)
    out = c.M.sciprint.adjust_headers(ix, sh, ud, **kw)
    c.same(len(out), len(cols), "one header per column")
    for h, (m, s) in zip(out, cols):
        if s == "p":
            c.same(h, "{p}" if tex else "p", "p-value header")
        else:
            c.check(h in want(m, s0[m], u0.get(m), True, tex), "header of its own metric")
    c.check(sh == s0 and ud == u0, "arguments not modified")


def tasks(tier):
    o = {"wit": 10, "wit_every": 5}
    return [(f, dict(tex=t), o) for f in ("one", "many") for t in (False, True)] + [("one", dict(tex=t, names=True), o) for t in (False, True)]
