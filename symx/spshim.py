"""scipy stand-ins. Student-t is an uninterpreted family with the axioms that tie its quantile and its
two-sided tail probability together; everything else is exact."""
import types
from fractions import Fraction

import numpy as np
import z3

from . import core as C, npshim
from .core import S, B, F0, F1, INF, NAN, nf, lift, ctx, Unsupported, zval
from .npshim import NP, A, ew, toA, reduce_axis, logsumexp_list, num2, sym, _var, _mean, exactify, interp, settle, mkA


def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False):
    if return_sign:
        raise Unsupported("logsumexp return_sign")
    a = toA(a)
    if b is not None:
        la = ew(lambda x, w: C.s_add(lift(x), C.s_log(lift(w))), a, b)
        a = toA(la)
    return reduce_axis(a, axis, keepdims, logsumexp_list)


def log_softmax(x, axis=None):
    return toA(x) - logsumexp(x, axis=axis, keepdims=True)


def softmax(x, axis=None):
    return NP.exp(log_softmax(x, axis=axis))


# ---- Student t
# two-sided tail  P(|T_df| > t) = tail(df, t^2);  quantile Q(df, c): P(|T| <= Q) = c
def _reg():
    c = ctx()
    if not hasattr(c, "t_reg"):
        c.t_reg = {}
    return c.t_reg


def t_tail2(df, t2):
    """P(T^2 > t2), t2 lifted >= 0"""
    if nf(t2):
        return NAN if np.isnan(t2) else S(F0)
    c = ctx()
    t2 = t2.plain()
    if t2.const and t2.e == 0:
        return S(F1)
    df = lift(df)
    reg = _reg().setdefault(("df", df.e if df.const else c.tid(df.z())), {"tail": [], "q": []})
    z = z3.simplify(t2.z())
    for zz, p in reg["tail"]:
        if zz.eq(z):
            return S(p)
    p = c.fresh("ttail")
    c.add(z3.And(p > 0, p <= 1, (p < 1) == (z > 0)))
    for zz, pp in reg["tail"]:
        c.add(z3.And((z < zz) == (p > pp), (z > zz) == (p < pp)))
    for cz, q in reg["q"]:
        c.add(z3.And((p < 1 - cz) == (z > q * q), (p > 1 - cz) == (z < q * q)))
    reg["tail"].append((z, p))
    return S(p)


def t_q(df, conf):
    """Q with P(|T| <= Q) = conf"""
    conf = lift(conf)
    if nf(conf):
        return NAN
    if bool(C.b_or(C.s_lt(conf, S(F0)), C.s_gt(conf, S(F1)))):
        return NAN
    if bool(C.s_eq(conf, S(F0))):
        return S(F0)
    if bool(C.s_eq(conf, S(F1))):
        return INF
    c = ctx()
    df = lift(df)
    reg = _reg().setdefault(("df", df.e if df.const else c.tid(df.z())), {"tail": [], "q": []})
    z = z3.simplify(conf.z())
    for cz, q in reg["q"]:
        if cz.eq(z):
            return S(q)
    q = c.fresh("tq")
    c.add(q > 0)
    for cz, qq in reg["q"]:
        c.add(z3.And((z < cz) == (q < qq), (z > cz) == (q > qq)))
    for zz, p in reg["tail"]:
        c.add(z3.And((p < 1 - z) == (zz > q * q), (p > 1 - z) == (zz < q * q)))
    if z3.is_rational_value(z) and df.const and df.e > 0:
        import scipy.stats as ss

        f = float(ss.t.ppf(0.5 * (1 + float(z.as_fraction())), float(df.e)))
        c._const_bounds(q, f, 1e-9 * (1 + f))
    reg["q"].append((z, q))
    return S(q)


class _T:
    def interval(self, confidence=None, df=None, loc=0, scale=1, alpha=None):
        conf = confidence if confidence is not None else alpha
        d = lift(df)
        if d.const and d.e <= 0:
            return NAN, NAN
        q = t_q(df, conf)
        loc, scale = lift(loc), lift(scale)
        if nf(scale) or not bool(C.s_gt(scale, S(F0))):
            return NAN, NAN
        w = C.s_mul(scale, q)
        return C.s_sub(loc, w), C.s_add(loc, w)

    def ppf(self, p, df, loc=0, scale=1):
        p = lift(p)
        c2 = C.s_sub(C.s_mul(S(Fraction(2)), p), S(F1))
        if bool(C.s_ge(c2, S(F0))):
            v = t_q(df, c2)
        else:
            v = C.s_neg(t_q(df, C.s_neg(c2)))
        return C.s_add(C.s_mul(v, lift(scale)), lift(loc))

    def isf(self, p, df, loc=0, scale=1):
        return self.ppf(1 - lift(p), df, loc, scale)

    def sf(self, t, df, loc=0, scale=1):
        def one(t):
            t = C.s_div(C.s_sub(lift(t), lift(loc)), lift(scale))
            if nf(t):
                return NAN if np.isnan(t) else (S(F0) if t > 0 else S(F1))
            p2 = C.s_div(t_tail2(df, C.s_mul(t, t)), S(Fraction(2)))
            return p2 if bool(C.s_ge(t, S(F0))) else C.s_sub(S(F1), p2)

        return ew(one, t)

    def cdf(self, t, df, loc=0, scale=1):
        return ew(lambda x: C.s_sub(S(F1), lift(x)) if not (nf(lift(x)) and np.isnan(lift(x))) else NAN, self.sf(t, df, loc, scale))


def sem(a, axis=0, ddof=1, nan_policy="propagate"):
    a = toA(a)
    n = a.shape[axis] if axis is not None else a.size
    return ew(num2(C.s_div), NP.std(a, axis=axis, ddof=ddof), ew(num2(C.s_sqrt), S(Fraction(n))))


class _TT:
    def __init__(self, statistic, pvalue):
        self.statistic, self.pvalue = statistic, pvalue

    def __iter__(self):
        return iter((self.statistic, self.pvalue))

    def __getitem__(self, i):
        return (self.statistic, self.pvalue)[i]

    def __len__(self):
        return 2


def ttest_1samp(a, popmean, axis=0, nan_policy="propagate", alternative="two-sided", **k):
    a = toA(a)
    if a.ndim != 1:
        raise Unsupported("ttest_1samp ndim")
    n = a.shape[0]
    xs = [lift(x) for x in a.view(np.ndarray)]
    if n < 2:
        return _TT(NAN, NAN)
    m = C.s_sub(_mean(xs), lift(popmean))
    if npshim.abs_stats() and alternative == "two-sided" and not any(nf(x) for x in xs) and not nf(lift(popmean)):
        if bool(npshim.all_equal(xs)):
            t = C._div0(m)
            return _TT(t, NAN if np.isnan(t) else S(F0))
        ds = [C.s_sub(x, lift(popmean)) for x in xs]
        mz = m.plain().z()
        p, t = npshim.uf_sample("ttest", 0, ds, lambda p, t: z3.And(p > 0, p <= 1, (p == 1) == (mz == 0)), 2)
        return _TT(S(t), S(p))
    v = _var(xs, 1)
    if nf(v):
        return _TT(NAN, NAN)
    if bool(C.s_eq(v, S(F0))):
        t = C._div0(m)
        p = NAN if np.isnan(t) else S(F0)
        if alternative != "two-sided" and not np.isnan(t):
            raise Unsupported("one-sided test")
        return _TT(t, p)
    t2 = C.s_div(C.s_mul(C.s_mul(m, m), S(Fraction(n))), v)
    p2 = t_tail2(n - 1, t2)
    t = C.s_div(m, C.s_sqrt(C.s_div(v, S(Fraction(n)))))
    if alternative == "two-sided":
        return _TT(t, p2)
    half = C.s_div(p2, S(Fraction(2)))
    pos = bool(C.s_gt(m, S(F0)))
    if alternative == "less":
        return _TT(t, C.s_sub(S(F1), half) if pos else half)
    return _TT(t, half if pos else C.s_sub(S(F1), half))


def ttest_rel(a, b, axis=0, **k):
    return ttest_1samp(toA(a) - toA(b), S(F0), axis=axis, **k)


HALF_LN_2PI = Fraction("0.918938533204672741780329736405617639861397473637783412817")


class _Norm:
    def logpdf(self, x, loc=0, scale=1):
        def f(x, m, s):
            x, m, s = lift(x), lift(m), lift(s)
            if nf(s) or not bool(C.s_gt(s, S(F0))):
                return NAN
            d = C.s_div(C.s_sub(x, m), s)
            if nf(d):
                return NAN if np.isnan(d) else np.float64(-np.inf)
            q = C.s_mul(S(Fraction(-1, 2)), C.s_mul(d, d))
            return C.s_sub(C.s_sub(q, S(HALF_LN_2PI)), C.s_log(s))

        return ew(f, x, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        return NP.exp(self.logpdf(x, loc, scale))

    def logsf(self, *a, **k):
        raise Unsupported("norm.logsf")

    def cdf(self, *a, **k):
        raise Unsupported("norm.cdf")

    ppf = sf = cdf


class _FB:
    """fallback: real attribute, Unsupported when handed symbolic data"""

    def __init__(self, real, **over):
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        self.__name__ = real.__name__

    def __getattr__(self, name):
        real = getattr(self._real, name)
        if isinstance(real, types.ModuleType):
            return _FB(real)
        if callable(real) and not isinstance(real, type):

            def f(*a, **k):
                if sym(*a, *k.values()):
                    raise Unsupported("%s.%s on symbolic data" % (self._real.__name__, name))
                return exactify(real(*a, **k))

            return f
        return real


class interp1d:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=np.nan, assume_sorted=False):
        if axis not in (-1, 0) or np.ndim(y) != 1:
            raise Unsupported("interp1d axis")
        self.x, self.y = toA(x), toA(y)
        if self.x.ndim != 1 or self.x.shape != self.y.shape:
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        if not assume_sorted:
            idx = NP.argsort(self.x, kind="mergesort")
            self.x, self.y = self.x[idx], self.y[idx]
        self.kind = kind if isinstance(kind, str) else str(kind)
        if self.kind not in ("linear", "previous", "next", "nearest", "zero"):
            raise Unsupported("interp1d kind %s" % kind)
        self.extrap = fill_value if isinstance(fill_value, str) else None
        self.fill = fill_value
        if bounds_error is None:
            bounds_error = self.extrap is None and isinstance(fill_value, float) and np.isnan(fill_value)
        self.bounds_error = bounds_error
        if self.kind == "linear" and len(self.x) < 1:
            raise ValueError("x and y arrays must have at least 1 entry")

    def __call__(self, q):
        if self.extrap:
            raise Unsupported("extrapolate")
        X = [lift(v) for v in self.x.view(np.ndarray)]
        Y = [lift(v) for v in self.y.view(np.ndarray)]
        qs = toA(q)
        below = [bool(C.s_lt(lift(v), X[0])) for v in qs.view(np.ndarray).reshape(-1)]
        above = [bool(C.s_gt(lift(v), X[-1])) for v in qs.view(np.ndarray).reshape(-1)]
        if self.bounds_error and any(below):
            raise ValueError("A value in x_new is below the interpolation range.")
        if self.bounds_error and any(above):
            raise ValueError("A value in x_new is above the interpolation range.")
        out = []
        for v, lo, hi in zip(qs.view(np.ndarray).reshape(-1), below, above):
            if lo or hi:
                fv = self.fill
                if isinstance(fv, tuple):
                    fv = fv[0] if lo else fv[1]
                out.append(lift(fv))
                continue
            v = lift(v)
            if self.kind == "linear":
                out.append(interp(v, self.x, self.y))
            elif self.kind in ("previous", "zero"):
                j = int(NP.searchsorted(self.x, v, side="right")) - 1
                out.append(Y[j])
            elif self.kind == "next":
                j = int(NP.searchsorted(self.x, v, side="left"))
                out.append(Y[j])
            else:
                raise Unsupported("nearest")
        return settle(mkA(out, qs.shape)) if qs.ndim else toA(out[0])


import scipy  # noqa: E402
import scipy.integrate  # noqa: E402
import scipy.interpolate  # noqa: E402
import scipy.special  # noqa: E402
import scipy.stats  # noqa: E402

SS = _FB(scipy.stats, t=_T(), sem=sem, ttest_1samp=ttest_1samp, ttest_rel=ttest_rel, norm=_Norm())
SI = _FB(scipy.interpolate, interp1d=interp1d)
SPECIAL = _FB(
    scipy.special,
    logsumexp=logsumexp,
    log_softmax=log_softmax,
    softmax=softmax,
    xlogy=lambda x, y: ew(lambda a, b: S(F0) if bool(C.s_eq(lift(a), S(F0))) else C.s_mul(lift(a), C.s_log(lift(b))), x, y),
    stdtr=lambda df, t: SS.t.cdf(t, df),
)
SINT = _FB(scipy.integrate, trapezoid=NP.trapz, trapz=NP.trapz)
MISC = _FB(scipy, stats=SS, interpolate=SI, special=SPECIAL, integrate=SINT)
