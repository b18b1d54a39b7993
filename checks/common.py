"""shared pieces of the harnesses"""
import itertools

import numpy as np
import pandas as pd


def labels(c, R, L, dtype=int, name="y"):
    """concrete label vector chosen by forking"""
    ys = [c.pick("%s%d" % (name, i), range(L)) for i in range(R)]
    return ys, np.array(ys, dtype=dtype)


ZERO = ["none", "one", "certain"]


def dist(c, name, L, zero="none", k=0):
    """a symbolic distribution over L labels; zero: which entries are exactly 0 ('one': entry k, 'certain': all but k)"""
    k = k % L
    if zero == "certain":
        return [c.num(1 if i == k else 0) for i in range(L)]
    sup = [i for i in range(L) if not (zero == "one" and i == k and L > 1)]
    p = [c.num(0)] * L
    rest = c.num(1)
    for i in sup[:-1]:
        v = c.real("%s%d" % (name, i), 0, 1, lo_open=True, hi_open=True)
        p[i] = v
        rest = rest - v
    if len(sup) > 1:
        c.assume(rest > 0)
    p[sup[-1]] = rest
    return p


def logs(c, rows):
    return c.arr([[c.log(v) for v in r] for r in rows])


def mcols(cols, names=None, extra=()):
    """MultiIndex of the columns; extra: labels left over from columns that were dropped (still in the levels)"""
    return pd.MultiIndex.from_tuples(list(cols) + list(extra), names=names)[: len(cols)]


def norm2(c, p):
    return c.sqrt(c.Sum([v * v for v in p]))


def weights(c, name, L, neg_inf=None, off=0):
    """unnormalized: (log weights with a common offset, distribution)"""
    w = [c.real("%s%d" % (name, k), 0, 8, lo_open=True) for k in range(L)]
    if neg_inf is not None and L > 1:
        w[neg_inf % L] = c.num(0)
    lw = [c.log(v) + off for v in w]
    tot = c.Sum(w)
    return lw, [c.div(v, tot) for v in w]


def text(c, neg, digits, ex):
    """fixed point text (no separators) of sign * digits * 10^ex"""
    ds = [c.dchar(d) for d in digits]
    if ex > 0:
        ip, fp = ds + ["0"] * ex, []
    else:
        ds = ["0"] * (1 - ex - len(ds)) + ds
        ip, fp = ds[: len(ds) + ex], ds[len(ds) + ex :]
    return ("-" if neg else "") + "".join(ip) + ("." + "".join(fp) if fp else "")


def est_text(c, mu, EB, shift, lo=None, hi=None, nf={}):
    """expected text (no separators) of an estimate; lo/hi: log10 limits of -10^lo and 10^hi"""
    k = c.dec_kind(mu)
    if k == "nan":
        return nf.get("nan", "nan")
    v = None if k != "fin" else c.dec_val(mu)
    if hi is not None and (k == "inf" or k == "fin" and bool(v > c.q10(hi))):
        return ">" + text(c, False, [1], hi + shift)
    if lo is not None and (k == "-inf" or k == "fin" and bool(v < -c.q10(lo))):
        return "<" + text(c, True, [1], lo + shift)
    if k != "fin":
        return nf.get(k, k)
    _, neg, ds, ex = c.dec_parts(mu)
    s = text(c, neg, ds, ex + shift)
    if c.dec_kind(EB) == "fin":
        s += "(%s)" % "".join(c.dchar(d) for d in c.dec_parts(EB)[2])
    return s


def pval_text(c, d, nf={}):
    if c.dec_kind(d) == "nan":
        return nf.get("nan", "nan")
    _, _, ds, ex = c.dec_parts(d)
    if bool(c.dec_val(d) <= c.q10(ex)):
        return "<" + text(c, False, [1], ex)
    return text(c, False, ds, ex)


def last_dig(s):
    """index of the digit before the decimal point"""
    for ch in ".(":
        if ch in s:
            return s.index(ch) - 1
    return len(s) - 1


def best_shifts(c, ests, mod):
    """acceptable shifts (C21) of a list of (mean, error bar)"""
    if not ests:
        return [0]
    info = []
    for mu, EB in ests:
        _, neg, ds, ex = c.dec_parts(mu)
        info.append((ex, neg, len(ds), 2 + len(c.dec_parts(EB)[2]) if c.dec_kind(EB) == "fin" else 0))
    W = 24
    dot = [s for s in range(-W, W + 1) if s % mod == 0 and all(ex + s <= 0 for ex, _, _, _ in info)]
    good = [s for s in dot if any(ex + k - 1 + s >= 0 for ex, _, k, _ in info)] or [max(dot)]
    width = lambda s: max(neg + max(k, 1 - ex - s) + w for ex, neg, k, w in info)
    w0 = min(width(s) for s in good)
    good = [s for s in good if width(s) == w0]
    return [s for s in good if abs(s) == min(abs(q) for q in good)]
