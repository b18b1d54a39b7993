"""C22 printed p-values."""
from checks.c19 import table

BOUNDS = "every real p-value in [0,1] except the points 10^-k themselves (no float equals 10^-k), precisions k = 1..8 and 20; and every decimal p-value with 1..6 decimals given to print_pval directly"
ASSUMPTIONS = ["a float is never exactly 10^-k for k >= 1", "decimal.Decimal as documented (model symx/decshim.py)"]


def below(c, s, k, pre="<", post=""):
    """the text is '<10^-k'?"""
    return isinstance(s, str) and s == pre + "0." + "0" * (k - 1) + "1" + post


def ck(c, s, v, k, label):
    """v: the value printed"""
    t = c.text_val(s) if isinstance(s, str) else None
    c.check(t is not None, label + " fixed point text")
    if t:
        c.same(t[1], k, label + " decimals")
        c.check(t[0] == v, label + " value")


def full(c, k):
    """float p-value -> decimalize -> print_pval"""
    p = c.real("p", 0, 1)
    x = c.exact(p)
    c.assume(x != c.q10(-k))
    sp = c.M.sciprint
    tbl = table(c, ["a"], ["f"], {("a", "f"): (c.num(1), c.nan, p)})
    d = sp.decimalize(tbl, pval_digits=k).loc["a", ("f", "p")]
    s = sp.print_pval(d)
    if below(c, s, k):
        return c.check(x < c.q10(-k), "true p-value below the printed bound")
    t = c.text_val(s) if isinstance(s, str) else None
    c.check(t is not None, "fixed point text")
    if t:
        c.same(t[1], k, "decimals")
        c.check(x <= t[0], "printed p-value not below the true one")
        c.check(t[0] < x + c.q10(-k), "printed p-value less than 10^-k above")
        c.check(t[0] > c.q10(-k), "small p-values are printed as a bound")


def full_table(c):
    """the same through format_table / just the default precision"""
    p = [c.real("p%d" % i, 0, 1) for i in range(2)]
    for q in p:
        c.assume(c.exact(q) != c.q10(-4))
    sp = c.M.sciprint
    tbl = table(c, ["b", "a"], ["f"], {("b", "f"): (c.num(1), c.nan, p[0]), ("a", "f"): (c.num(2), c.nan, p[1])})
    out, _ = sp.format_table(sp.decimalize(tbl))
    for r, q in zip(["b", "a"], p):
        s, x = out.loc[r, ("f", "p")], c.exact(q)
        if below(c, s, 4):
            c.check(x < c.q10(-4), "true p-value below the printed bound")
            continue
        t = c.text_val(s) if isinstance(s, str) else None
        c.check(t is not None, "fixed point text")
        if t:
            c.check(c.And(x <= t[0], t[0] < x + c.q10(-4), t[0] > c.q10(-4)), "printed p-value")


def direct(c, k):
    d = c.dec_int("p", 0, 10**k, -k)
    kw, pre, post = {}, "<", ""
    if c.flag("fmt"):
        kw, pre, post = {"below_fmt": "under {0:,f}!"}, "under ", "!"
    s = c.M.sciprint.print_pval(d, **kw)
    if bool(c.dec_val(d) <= c.q10(-k)):
        c.same(below(c, s, k, pre, post), True, "text of a small p-value")
    else:
        ck(c, s, c.dec_val(d), k, "p-value")


def nan(c):
    sp = c.M.sciprint
    tbl = table(c, ["a"], ["f"], {("a", "f"): (c.num(1), c.nan, c.nan)})
    d = sp.decimalize(tbl).loc["a", ("f", "p")]
    c.same(sp.print_pval(d), "nan", "NaN p-value")
    c.same(sp.print_pval(d, non_finite_fmt={"nan": "--", "inf": "x"}), "--", "NaN p-value")
    c.same(sp.print_pval(d, non_finite_fmt={"inf": "x"}), "nan", "NaN p-value")


def tasks(tier):
    O = {"dy_den": (16, 1 << 20, 1 << 40)}
    T = [("nan", {}, None), ("full_table", {}, O)]
    for k in (1, 2, 3, 4, 5, 6, 7, 8, 20) + (() if tier == "quick" else (9, 10, 12, 16, 28, 29)):
        T.append(("full", dict(k=k), O))
    for k in (1, 2, 3, 4, 5, 6) + (() if tier == "quick" else (8, 12)):
        T.append(("direct", dict(k=k), O))
    return T
