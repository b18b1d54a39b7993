"""C24 format_table, table_to_string, table_to_latex, just_format_it."""
import pandas as rpd

from checks.c23 import want as header
from checks.common import best_shifts, est_text, last_dig, pval_text

BOUNDS = "decimal tables of 1..3 methods x 1..3 metrics with rows, metrics and stats in any order; means of 1..4 digits (all digit values, both signs, also 0, NaN and infinite), exponents -4..2, error bars of 1..2 digits, zero, NaN or infinite, all p-values with 2..4 decimals; limits 10^-1..10^3 per metric or none; modulus None, 1, 2, 3; padding on and off; whole pipeline from floats in small ranges, plain and TeX; 70 methods and 24 metrics with one symbolic cell; a 70-digit estimate"
ASSUMPTIONS = ["DataFrame.to_latex (needs jinja2, not installed) is replaced by a recorder of the frame it is given", "pandas to_string as documented (the real one runs)", "decimal.Decimal as documented (model symx/decshim.py)"]

STATS = ["mean", "error", "p"]
NF = {"inf": r"\infty", "-inf": r"-\infty", "nan": "--"}
REC = []


def mk(c, rows, metrics, cells, order=STATS):
    cols = rpd.MultiIndex.from_tuples([(m, s) for m in metrics for s in order], names=["metric", "stat"])
    return c.oframe([[cells[(r, m)][STATS.index(s)] for m in metrics for s in order] for r in rows], rpd.Index(rows, name="method"), cols)


def dec_cell(c, name, sp, kp=4):
    """sp: 'nd,ex[,-][,eb]' or 'nan' / 'inf' / '-inf' / '0,ex'"""
    i, j = map(int, name.split("_"))
    p = c.dec_int("p" + name, 0, 10**kp, -kp) if i + j == 0 else c.dec("p" + name, min(kp, 2 + i), -kp)
    if sp in ("nan", "inf", "-inf"):
        return c.D({"nan": "NaN", "inf": "Infinity", "-inf": "-Infinity"}[sp]), c.D("NaN"), c.D("NaN")
    q = sp.split(",")
    nd, ex, neg, eb = int(q[0]), int(q[1]), "-" in q[2:], [t for t in q[2:] if t != "-"]
    eb = eb[0] if eb else "2"
    mu = c.D((0, (0,), ex)) if nd == 0 else c.dec("m" + name, nd, ex, neg)
    EB = c.D("NaN") if eb == "n" else c.D("Infinity") if eb == "i" else c.D("0") if eb == "0" else c.dec("e" + name, int(eb), ex)
    return mu, EB, p


def verify(c, out, shifts, rows, metrics, cells, mod, pad, lim_hi, lim_lo, nf):
    c.same(list(out.index), rows, "rows")
    c.same(sorted(map(tuple, out.columns)), sorted((m, s) for m in metrics for s in ("estimate", "p")), "columns")
    c.same((out.index.name, list(out.columns.names)), ("method", ["metric", "stat"]), "names")
    c.same(sorted(shifts), sorted(metrics), "one shift per metric")
    for m in metrics:
        hi, lo = lim_hi.get(m), lim_lo.get(m)
        sh = shifts[m]
        if mod is None:
            c.same(sh, 0, "no shift")
        else:
            keep = []
            for r in rows:
                mu = cells[(r, m)][0]
                if c.dec_kind(mu) != "fin":
                    continue
                v = c.dec_val(mu)
                if hi is not None and bool(v > c.q10(hi)) or lo is not None and bool(v < -c.q10(lo)):
                    continue
                keep.append(cells[(r, m)][:2])
            c.check(int(sh) in best_shifts(c, keep, mod), "best shift of the unclipped estimates of %s" % m)
        ss = []
        for r in rows:
            mu, EB, p = cells[(r, m)]
            s = out.loc[r, (m, "estimate")]
            if not isinstance(s, str):
                return c.fail("estimate is not a str")
            want = est_text(c, mu, EB, int(sh), lo, hi, nf)
            c.str_same((s.rstrip(" ") if pad else s).replace(",", ""), want, "estimate of %s %s" % (r, m))
            c.str_same(out.loc[r, (m, "p")], pval_text(c, p, nf), "p-value of %s %s" % (r, m))
            ss.append(s)
        if pad:
            c.same(len({len(s) - last_dig(s.rstrip(" ")) for s in ss}), 1, "decimal points line up in %s" % m)


def fmt(c, rows, metrics, specs, mod=None, order=STATS, hi={}, lo={}, nf=False, unused=False):
    cells = {}
    for j, m in enumerate(metrics):
        for i, r in enumerate(rows):
            cells[(r, m)] = dec_cell(c, "%d_%d" % (i, j), specs[j][i], kp=4 if j == 0 else 2)
    tbl = mk(c, rows, metrics, cells, order)
    if unused:
        metrics = metrics[1:]
        tbl = tbl[metrics]
    snap = list(c.cells(tbl))
    pad = c.flag("pad")
    kw = dict(pad=False) if not pad else {}
    if mod is not None:
        kw["shift_mod"] = mod
    if hi:
        kw["crap_limit_max"] = dict(hi)
    if lo:
        kw["crap_limit_min"] = dict(lo)
    if nf:
        kw["non_finite_fmt"] = dict(NF)
    out, shifts = c.M.sciprint.format_table(tbl, **kw)
    verify(c, out, shifts, rows, metrics, cells, mod, pad, hi, lo, NF if nf else {})
    c.check(all(a is b for a, b in zip(c.cells(tbl), snap)), "table not modified")


def ck_string(c, txt, rows, cols, cells, heads):
    """plain text: header line, then one line per method with the cells in column order"""
    if not isinstance(txt, str):
        return c.fail("not a str")
    lines = txt.split("\n")
    c.same(len(lines), 1 + len(rows), "lines")
    h = " ".join(lines[0].split())
    c.check(any(h == " ".join(q) for q in heads), "header line")
    for r, l in zip(rows, lines[1:]):
        t = l.split()
        c.same(len(t), 1 + len(cols), "cells in the line of %s" % r)
        c.same(t[0], r, "method")
        for k, (s, q) in enumerate(zip(t[1:], cells[r])):
            c.str_same(s.replace(",", ""), q.replace(",", "").strip(), "cell %d of %s" % (k, r))
    for k in range(len(cols)):
        pos = set()
        for l in lines[1:]:
            t = l.split()
            at = 0
            for s in t[: k + 2]:
                at = l.index(s, at)
                end = at + len(s)
                start, at = at, end
            pos.add(start + last_dig(t[k + 1]))
        if cols[k] == "estimate":
            c.same(len(pos), 1, "decimal points line up in column %d" % k)


def _tex_stub(self, *a, **k):
    REC.append((self, a, k))
    return "TEX"


def combos(xs):
    """all ways to take one element of every set"""
    out = [[]]
    for s in xs:
        out = [o + [h] for o in out for h in sorted(s)]
    return out


def export(c, rows, metrics, specs, units, mod, tex, prefix=True):
    """format_table then export"""
    sp = c.M.sciprint
    cells = {(r, m): dec_cell(c, "%d_%d" % (i, j), specs[j][i]) for j, m in enumerate(metrics) for i, r in enumerate(rows)}
    out, shifts = sp.format_table(mk(c, rows, metrics, cells), shift_mod=mod)
    snap = list(c.cells(out))
    cols = [tuple(q) for q in out.columns]
    heads = combos([{"{p}" if tex else "p"} if s == "p" else header(m, int(shifts[m]), units.get(m), prefix, tex) for m, s in cols])
    want = {r: [out.loc[r, q] for q in cols] for r in rows}
    check_export(c, sp, out, shifts, units, prefix, tex, rows, cols, want, heads)
    c.check(all(a is b for a, b in zip(c.cells(out), snap)) and [tuple(q) for q in out.columns] == cols, "table not modified")


def check_export(c, sp, out, shifts, units, prefix, tex, rows, cols, want, heads, call=None):
    if not tex:
        call = call or (lambda: sp.table_to_string(out, shifts, dict(units), **({} if prefix else {"use_prefix": False})))
        return ck_string(c, call(), rows, [q[1] for q in cols], want, heads)
    call = call or (lambda: sp.table_to_latex(out, shifts, dict(units), **({} if prefix else {"use_prefix": False})))
    del REC[:]
    old = rpd.DataFrame.to_latex
    rpd.DataFrame.to_latex = _tex_stub
    try:
        txt = call()
    finally:
        rpd.DataFrame.to_latex = old
    c.same((txt, len(REC)), ("TEX", 1), "exported once")
    df, a, k = REC[0]
    c.check(any([str(q) for q in df.columns] == h for h in heads), "TeX headers")
    c.same(list(df.index), rows, "methods")
    c.same(k.get("escape"), False, "TeX is not escaped")
    v = c.cells(df)
    for i, r in enumerate(rows):
        for j in range(len(cols)):
            c.str_same(v[i * len(cols) + j].replace(",", "").strip(), want[r][j].replace(",", "").strip(), "cell %d of %s" % (j, r))


def big(c, nr, nm, tex, digits=0):
    """tables with many methods or metrics, one symbolic cell"""
    sp = c.M.sciprint
    rows, metrics = ["m%d" % (i * 3 % nr) for i in range(nr)], ["x%d" % (j * 5 % nm) for j in range(nm)]
    cells = {}
    for i, r in enumerate(rows):
        for j, m in enumerate(metrics):
            cells[r, m] = (c.D("%d.%d" % (i - 3 * j, i % 10)), c.D("0.%d" % (1 + (i + j) % 9)), c.D("0.%04d" % (i * 13 + j)))
    if digits:  # a very long estimate
        cells[rows[0], metrics[0]] = (c.D("1234567890" * (digits // 10) + ".5"), c.D("0.3"), c.D("0.0301"))
    cells[rows[1], metrics[-1]] = (c.dec("m", 2, -1), c.dec("e", 1, -1), c.dec("p", 3, -4))
    out, shifts = sp.format_table(mk(c, rows, metrics, cells), shift_mod=None)
    verify(c, out, shifts, rows, metrics, cells, None, True, {}, {}, {})
    cols = [tuple(q) for q in out.columns]
    heads = [[("{p}" if tex else "p") if s == "p" else sorted(header(m, 0, None, True, tex))[0] for m, s in cols]]
    want = {r: [out.loc[r, q] for q in cols] for r in rows}
    check_export(c, sp, out, shifts, {}, True, tex, rows, cols, want, heads)


def pipeline(c, tex, mod, unit):
    """just_format_it on a float table: every setting reaches its place"""
    sp = c.M.sciprint
    rows, metrics = ["b", "a"], ["y_s", "x"]
    f = {}
    # x of 'a' is above the crap limit; error bar of (b, y_s) above its limit
    f["b", "y_s"] = (c.real("m0", 0.01231, 0.01239), c.real("e0", 0.211, 0.219), c.real("p0", 0.02311, 0.02319))
    f["a", "y_s"] = (c.real("m1", -0.0789, -0.0781), c.real("e1", 0.00221, 0.00229), c.nan)
    f["b", "x"] = (c.real("m2", 12.41, 12.44), c.real("e2", 0.521, 0.529), c.real("p2", 0.00001, 0.00009))
    f["a", "x"] = (c.real("m3", 1200, 1300), c.real("e3", 3.11, 3.19), c.real("p3", 0.5, 0.50009, lo_open=True))
    lims = c.flag("lims")
    cols = rpd.MultiIndex.from_tuples([(m, s) for m in metrics for s in STATS], names=["metric", "stat"])
    tbl = c.frame([[f[r, m][k] for m in metrics for k in range(3)] for r in rows], index=rpd.Index(rows, name="method"), columns=cols)
    prefix = c.flag("prefix")
    kw = dict(shift_mod=mod, use_tex=tex, use_prefix=prefix)
    hi, lo, eb, nf = {}, {}, {}, {}
    if lims:
        hi, lo, eb, nf = {"x": 3}, {"y_s": -2}, {"y_s": -1}, dict(NF)
        kw.update(crap_limit_max=hi, crap_limit_min=lo, EB_limit=eb, non_finite_fmt=nf)
    units = {"y_s": unit} if unit else {}
    if units:
        kw["unit_dict"] = units
    dec = sp.decimalize(tbl, EB_limit=dict(eb))
    out, shifts = sp.format_table(dec, shift_mod=mod, crap_limit_max=dict(hi), crap_limit_min=dict(lo), non_finite_fmt=dict(nf))
    cells = {(r, m): tuple(dec.loc[r, (m, s)] for s in STATS) for r in rows for m in metrics}
    verify(c, out, shifts, rows, metrics, cells, mod, True, hi, lo, nf)
    oc = [tuple(q) for q in out.columns]
    heads = combos([{"{p}" if tex else "p"} if s == "p" else header(m, int(shifts[m]), units.get(m), prefix, tex) for m, s in oc])
    want = {r: [out.loc[r, q] for q in oc] for r in rows}
    snap = c.snapshot(tbl)
    check_export(c, sp, None, None, units, prefix, tex, rows, oc, want, heads, call=lambda: sp.just_format_it(tbl, **kw))
    c.unchanged(tbl, snap, "table")


R3, R2, R1 = ["b", "a", "c"], ["b", "a"], ["a"]


def tasks(tier):
    o = {"wit": 8, "wit_every": 15, "dy_den": (16, 1 << 20, 1 << 40)}
    T = []

    def add(f, **k):
        T.append((f, k, o))

    for mod in (None, 1, 3):
        add("fmt", rows=R3, metrics=["x"], specs=[["3,-2", "2,-1,-", "4,-3,1"]], mod=mod)
        add("fmt", rows=R2, metrics=["y", "x"], specs=[["3,-2", "1,-1"], ["2,-3", "4,-3,-"]], mod=mod)
        add("fmt", rows=R1, metrics=["y", "z", "x"], specs=[["1,-3,n"], ["2,0,0"], ["3,-1,i"]], mod=mod)
        add("fmt", rows=R2, metrics=["x", "y"], specs=[["nan", "2,-1"], ["0,-2,0", "nan"]], mod=mod, nf=mod == 1)
    for mod in (1, 2, 3):
        add("fmt", rows=R3, metrics=["x"], specs=[["3,1", "4,0", "2,2,1"]], mod=mod)
        add("fmt", rows=R2, metrics=["x", "y"], specs=[["3,2,1", "2,1,-"], ["4,-4", "4,-4,-"]], mod=mod, order=["p", "error", "mean"])
    for mod in (None, 1, 3):
        # clipped on either side: the limits of one metric do not touch the other
        add("fmt", rows=R3, metrics=["x", "y"], specs=[["3,-1", "3,-2", "4,-1"], ["3,-1", "2,-2", "4,-1,-"]], mod=mod, hi={"x": 2})
        add("fmt", rows=R3, metrics=["x"], specs=[["3,-1", "3,-2,-", "4,-1,-"]], mod=mod, lo={"x": 1})
        add("fmt", rows=R3, metrics=["x"], specs=[["inf", "-inf", "2,-2"]], mod=mod, hi={"x": 1}, lo={"x": 0})
        add("fmt", rows=R2, metrics=["x"], specs=[["inf", "4,0"]], mod=mod, hi={"x": 3})
        add("fmt", rows=R2, metrics=["x", "y"], specs=[["4,-1,-", "4,-2"], ["4,-1,-", "4,-2"]], mod=mod, hi={"y": 1, "x": 3}, lo={"x": 2, "y": -1}, nf=True)
        # the clipped estimate has fewer decimals than the others and just misses the limit
        add("fmt", rows=R3, metrics=["x"], specs=[["2,-3", "4,-1", "2,-3"]], mod=mod, hi={"x": 2})
        add("fmt", rows=R3, metrics=["x"], specs=[["2,-3,-", "4,-1,-", "2,-3"]], mod=mod, lo={"x": 2})
    add("fmt", rows=R2, metrics=["x", "z", "y"], specs=[["2,-1", "2,-1"], ["3,-2", "1,-1"], ["2,-2", "4,-2"]], mod=1, unused=True)
    add("fmt", rows=R3, metrics=["z", "x", "y"], specs=[["2,-1", "2,-1", "1,-1,1"], ["3,-2", "1,-1", "nan"], ["2,-2,-", "4,-2", "2,-2,n"]], mod=3)
    add("fmt", rows=["d", "b", "a", "c"], metrics=["x"], specs=[["2,-1", "2,-1,-", "1,-1,1", "3,-3,i"]], mod=1)
    add("fmt", rows=R2, metrics=["x"], specs=[["inf", "inf"]], mod=1, hi={"x": 3})
    add("export", rows=R2, metrics=["y_m", "x"], specs=[["3,-4", "2,-4"], ["4,-1", "2,-1,-"]], units={"y_m": "s"}, mod=3, tex=False)
    add("export", rows=R2, metrics=["y_m", "x"], specs=[["3,-4", "2,-4"], ["4,-1", "2,-1,-"]], units={"y_m": "s"}, mod=3, tex=True)
    add("export", rows=R3, metrics=["x"], specs=[["3,2", "2,2", "4,2,1"]], units={}, mod=1, tex=False)
    add("export", rows=R2, metrics=["x", "w"], specs=[["3,2", "2,2,-"], ["1,0", "1,-1"]], units={"x": "V"}, mod=2, tex=True, prefix=False)
    add("export", rows=R1, metrics=["x", "w"], specs=[["3,-7"], ["4,0"]], units={"x": "m"}, mod=3, tex=False, prefix=False)
    for tex in (False, True):
        add("big", nr=70, nm=1, tex=tex)
        add("big", nr=2, nm=24, tex=tex)
        add("big", nr=4, nm=2, tex=tex, digits=70)
    for tex in (False, True):
        for mod, unit in ((None, "s"), (1, None), (3, "s")) if tier == "quick" else [(m, u) for m in (None, 1, 2, 3, 4) for u in ("s", None)]:
            add("pipeline", tex=tex, mod=mod, unit=unit)
    return T
