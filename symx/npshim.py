"""numpy stand-in: real containers, symbolic scalars.

Every float array that mlpaper sees is an A (ndarray subclass of object dtype holding S / np.float64
non-finite / B / np.bool_); integer and bool arrays without symbolic content stay native.
Functions not modelled here fall through to numpy itself (which handles object arrays where it can).
"""
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from .core import *
from .core import S, B, F0, F1, INF, NAN, TRUE, FALSE, nf, lift, as_b, ctx, Unsupported
from . import core as C


# --------------------------------------------------------------------------------------------------
class A(np.ndarray):
    __array_priority__ = 500

    @property
    def dtype(self):
        return fake_dtype(self)

    # -- ufuncs
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        return ufunc_dispatch(ufunc, method, inputs, out, kw)

    def __array_function__(self, func, types_, args, kwargs):
        name = func.__name__
        mod = getattr(func, "__module__", "") or ""
        f = getattr(NP, name, None) if mod.startswith("numpy") and "random" not in mod else None
        if f is not None and f is not func:
            return f(*args, **kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        return r

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fix_index(idx))
        return r

    def __setitem__(self, idx, val):
        if isinstance(val, np.ndarray) and not isinstance(val, A):
            val = toA(val)
        elif isinstance(val, (list, tuple)):
            val = toA(val)
        elif isinstance(val, (float, np.floating, int, np.integer)) and not isinstance(val, (bool, np.bool_)):
            val = lift(val)
        if isinstance(val, np.ndarray):
            val = val.view(np.ndarray)
        np.ndarray.__setitem__(self.view(np.ndarray), fix_index(idx), val)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.reshape(-1)[0])

    def __int__(self):
        return int(self.reshape(-1)[0])

    def __index__(self):
        return int(self.reshape(-1)[0])

    def __contains__(self, x):
        return bool(C.b_any([q == x for q in self.reshape(-1)]))

    def __reduce__(self):
        raise Unsupported("pickling symbolic data")

    def astype(self, dt, *a, **k):
        return astype(self, dt)

    def item(self, *a):
        return np.ndarray.item(self.view(np.ndarray), *a)

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NP.sum(self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NP.prod(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return NP.mean(self, axis=axis, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return NP.std(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return NP.var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return NP.min(self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return NP.max(self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None, **k):
        return NP.ptp(self, axis=axis)

    def argmin(self, axis=None, out=None, **k):
        return NP.argmin(self, axis=axis)

    def argmax(self, axis=None, out=None, **k):
        return NP.argmax(self, axis=axis)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return NP.argsort(self, axis=axis, kind=kind)

    def sort(self, axis=-1, kind=None, order=None, **k):
        np.ndarray.__setitem__(self.view(np.ndarray), Ellipsis, NP.sort(self, axis=axis).view(np.ndarray))

    def cumsum(self, axis=None, dtype=None, out=None):
        return NP.cumsum(self, axis=axis)

    def cumprod(self, axis=None, dtype=None, out=None):
        return NP.cumprod(self, axis=axis)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return NP.all(self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return NP.any(self, axis=axis, keepdims=keepdims)

    def clip(self, a_min=None, a_max=None, out=None, **k):
        return NP.clip(self, a_min, a_max)

    def round(self, decimals=0, out=None):
        return NP.round(self, decimals)

    def dot(self, b, out=None):
        return NP.dot(self, b)

    def __matmul__(self, b):
        return NP.dot(self, b)

    def __rmatmul__(self, a):
        return NP.dot(a, self)

    def nonzero(self):
        return NP.nonzero(self)

    def searchsorted(self, v, side="left", sorter=None):
        return NP.searchsorted(self, v, side=side, sorter=sorter)

    def fill(self, v):
        self[...] = v


def fake_dtype(a):
    b = a.view(np.ndarray)
    if b.size == 0:
        return np.dtype(float)
    kinds = set()
    for x in b.reshape(-1):
        if isinstance(x, (B, bool, np.bool_)):
            kinds.add("b")
        elif isinstance(x, (S, float, int, np.number)):
            kinds.add("f")
        else:
            return np.dtype(object)
        if len(kinds) == 2:
            return np.dtype(float)
    return np.dtype(bool) if kinds == {"b"} else np.dtype(float)


def norm_el(x):
    """canonical element"""
    if isinstance(x, (S, B)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return np.bool_(x)
    if isinstance(x, (int, float, np.number)):
        return lift(x)
    return x


def mkA(lst, shape=None):
    """flat list -> A"""
    a = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        a[i] = norm_el(x)
    a = a.view(A)
    return a if shape is None else a.reshape(shape)


def has_sym(x, depth=0):
    if isinstance(x, (S, B, A)):
        return True
    if isinstance(x, np.ndarray):
        if np.ndarray.dtype.__get__(x) == object:
            return any(has_sym(q) for q in x.reshape(-1))
        return False
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(q, depth + 1) for q in x)
    if hasattr(x, "values") and hasattr(x, "index") and not isinstance(x, dict):  # pandas
        return has_sym(np.asarray(x.values).view(np.ndarray) if not isinstance(x.values, A) else x.values)
    return False


def rawdt(a):
    return np.ndarray.dtype.__get__(a)


def toA(x):
    """array-like -> A (float semantics; bool content stays bool)"""
    if isinstance(x, A):
        return x
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            a = np.empty((), dtype=object)
            a[()] = norm_el(x[()])
            return a.view(A)
        flat = [norm_el(q) for q in x.reshape(-1)]
        return mkA(flat, x.shape)
    if isinstance(x, (S, B, int, float, np.number, np.bool_)):
        a = np.empty((), dtype=object)
        a[()] = norm_el(x)
        return a.view(A)
    if hasattr(x, "values") and hasattr(x, "index") and not isinstance(x, dict) and not isinstance(x, (list, tuple)):
        return toA(x.values)
    if isinstance(x, (range, types.GeneratorType)) or hasattr(x, "__iter__") and not hasattr(x, "__len__"):
        x = list(x)
    if isinstance(x, (list, tuple)):
        parts = [toA(q) for q in x]
        if not parts:
            return mkA([])
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("inhomogeneous shape")
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p.view(np.ndarray)[()] if p.ndim == 0 else p.view(np.ndarray)
        return out.view(A)
    r = np.asarray(x)
    if r.dtype == object and r.ndim == 0:
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(A)
    return toA(r)


def settle(a):
    """A -> native bool array when fully decided bool; 0-d -> scalar"""
    if not isinstance(a, np.ndarray):
        return a
    if a.ndim == 0:
        return a.view(np.ndarray)[()]
    if isinstance(a, A) and a.size and all(isinstance(x, (bool, np.bool_)) for x in a.view(np.ndarray).reshape(-1)):
        return np.array(a.view(np.ndarray), dtype=bool)
    return a


def exactify(r):
    """native numpy result -> exact world (float arrays/scalars become A/S)"""
    if isinstance(r, tuple):
        return tuple(exactify(q) for q in r)
    if isinstance(r, A):
        return r
    if isinstance(r, np.ndarray):
        return toA(r) if r.dtype.kind == "f" else r
    if isinstance(r, (float, np.floating)):
        return lift(r)
    return r


def fix_index(idx):
    """decide symbolic masks / indices"""
    if isinstance(idx, tuple):
        return tuple(fix_index(i) for i in idx)
    if isinstance(idx, A):
        return concrete_index(idx)
    if isinstance(idx, S):
        return int(idx)
    if isinstance(idx, B):
        return bool(idx)
    if isinstance(idx, list) and any(isinstance(q, (S, B)) for q in idx):
        return concrete_index(toA(idx))
    return idx


def concrete_index(a):
    dt = fake_dtype(a)
    if dt.kind == "b":
        return np.array([bool(x) for x in a.view(np.ndarray).reshape(-1)], dtype=bool).reshape(a.shape)
    if a.size == 0:
        return np.zeros(a.shape, dtype=int)
    vals = []
    for x in a.view(np.ndarray).reshape(-1):
        l = lift(x)
        if nf(l):
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        vals.append(int(l))
    return np.array(vals, dtype=int).reshape(a.shape)


# --------------------------------------------------------------------------------------------------
# elementwise machinery
def ew(f, *args):
    arrs = [a.view(np.ndarray) if isinstance(a, A) else toA(a).view(np.ndarray) for a in args]
    bc = np.broadcast(*arrs) if len(arrs) > 1 else None
    shape = bc.shape if bc is not None else arrs[0].shape
    if bc is not None:
        it = [f(*[_num(x) for x in t]) for t in bc]
    else:
        it = [f(_num(x)) for x in arrs[0].reshape(-1)]
    if shape == ():
        return norm_el(it[0])
    return settle(mkA(it, shape))


def _num(x):
    if isinstance(x, (S, B, np.bool_)):
        return x
    l = lift(x)
    return x if l is None else l


def num2(f):
    """scalar fn on lifted numbers"""

    def g(*xs):
        ls = [lift(x) for x in xs]
        if any(l is None for l in ls):
            return NotImplemented
        return f(*ls)

    return g


def _s_isfinite(a):
    return np.bool_(not nf(a))


def _s_isnan(a):
    return np.bool_(nf(a) and np.isnan(a))


def _s_isinf(a):
    return np.bool_(nf(a) and not np.isnan(a))


def s_logaddexp(a, b):
    return logsumexp_list([a, b])


def logsumexp_list(xs, weights=None):
    """stable log-sum-exp of lifted values (optionally with finite weights)"""
    xs = [lift(x) for x in xs]
    ws = [S(F1)] * len(xs) if weights is None else [lift(w) for w in weights]
    if any(nf(x) and np.isnan(x) for x in xs):
        return NAN
    if any(nf(x) and x == math.inf for x in xs):
        return INF
    pairs = [(x, w) for x, w in zip(xs, ws) if not nf(x)]
    if not pairs:
        return np.float64(-INF)
    # factor out a common constant offset (stability)
    consts = [x.e for x, _ in pairs if isinstance(x.e, Fraction)]
    m = max(consts) if consts else F0
    if not consts and all(x.e.eq(pairs[0][0].e) for x, _ in pairs):
        m = pairs[0][0].e
    tot = S(F0)
    for x, w in pairs:
        t = C.s_exp(S(C._bin(x.e, m, "-"), x.lf))
        tot = C.s_add(tot, C.s_mul(w, t))
    r = C.s_log(tot)
    return C.s_add(r, S(m))


def s_clip(x, lo, hi):
    x = lift(x)
    # numpy: minimum(maximum(x, lo), hi)
    if lo is not None:
        x = C.s_max(x, lift(lo))
    if hi is not None:
        x = C.s_min(x, lift(hi))
    return x


def s_nextafter(a, b):
    if nf(a):
        if np.isnan(a):
            return a
        return a if (nf(b) and a == b) else np.float64(np.nextafter(float(a), 0))
    # the next double: a value strictly between a and every larger input (see ulp model in DESIGN)
    up = bool(C.s_lt(a, b))
    if not up and bool(C.s_eq(a, b)):
        return b
    return ctx_nextafter(a, up)


def ctx_nextafter(a, up):
    c = ctx()
    reg = getattr(c, "na_reg", None)
    if reg is None:
        reg = c.na_reg = {}
    k = (c.tid(a.plain().z()), up)
    if k in reg:
        return reg[k]
    v = c.fresh("nextafter")
    az = a.z()
    ulp = c.na_ulp if hasattr(c, "na_ulp") else None
    if ulp is None:
        # fixed-point grid: inputs declared on the grid (multiples of ulp); next value is a +/- ulp
        raise Unsupported("nextafter without a grid")
    c.add(v == (az + ulp if up else az - ulp))
    r = S(v)
    reg[k] = r
    return r


def _div(a, b):
    return C.s_div(a, b)


def s_log1p(a):
    return C.s_log(C.s_add(lift(1), a))


def s_expm1(a):
    return C.s_sub(C.s_exp(a), S(F1))


def s_log_base(base):
    def f(a):
        l = C.s_log(a)
        return C.s_div(l, C.s_log(S(Fraction(base))).plain()) if not nf(l) else l

    return f


UF = {
    "add": num2(C.s_add),
    "subtract": num2(C.s_sub),
    "multiply": num2(C.s_mul),
    "divide": num2(_div),
    "true_divide": num2(_div),
    "floor_divide": num2(C.s_floordiv),
    "remainder": num2(C.s_mod),
    "mod": num2(C.s_mod),
    "power": num2(C.s_pow),
    "float_power": num2(C.s_pow),
    "negative": num2(C.s_neg),
    "positive": num2(lambda a: a),
    "absolute": num2(C.s_abs),
    "abs": num2(C.s_abs),
    "fabs": num2(C.s_abs),
    "sign": num2(C.s_sign),
    "square": num2(lambda a: C.s_mul(a, a)),
    "reciprocal": num2(lambda a: C.s_div(S(F1), a)),
    "sqrt": num2(C.s_sqrt),
    "exp": num2(C.s_exp),
    "expm1": num2(s_expm1),
    "log": num2(C.s_log),
    "log1p": num2(s_log1p),
    "log2": num2(s_log_base(2)),
    "log10": num2(s_log_base(10)),
    "exp2": num2(lambda a: C.s_pow(S(Fraction(2)), a)),
    "logaddexp": num2(s_logaddexp),
    "floor": num2(C.s_floor),
    "ceil": num2(C.s_ceil),
    "rint": num2(C.s_rint),
    "trunc": num2(lambda a: C.s_floor(a) if bool(C.s_ge(a, S(F0))) else C.s_ceil(a)),
    "maximum": num2(C.s_max),
    "minimum": num2(C.s_min),
    "fmax": num2(C.s_fmax),
    "fmin": num2(C.s_fmin),
    "less": num2(C.s_lt),
    "less_equal": num2(C.s_le),
    "greater": num2(C.s_gt),
    "greater_equal": num2(C.s_ge),
    "isfinite": num2(_s_isfinite),
    "isnan": num2(_s_isnan),
    "isinf": num2(_s_isinf),
    "logical_and": C.b_and,
    "logical_or": C.b_or,
    "logical_not": C.b_not,
    "logical_xor": C.b_xor,
    "nextafter": num2(s_nextafter),
    "signbit": num2(lambda a: C.s_lt(a, S(F0))),
    "hypot": num2(lambda a, b: C.s_sqrt(C.s_add(C.s_mul(a, a), C.s_mul(b, b)))),
    "heaviside": num2(lambda a, h: C.s_ite(C.s_lt(a, S(F0)), S(F0), C.s_ite(C.s_eq(a, S(F0)), h, S(F1)))),
}


def _generic_eq(a, b):
    la, lb = lift(a), lift(b)
    if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
        return C.b_not(C.b_xor(a, b))
    if la is None or lb is None:
        return np.bool_(a is b or (la is None and lb is None and a == b))
    return C.s_eq(la, lb)


UF["equal"] = _generic_eq
UF["not_equal"] = lambda a, b: C.b_not(_generic_eq(a, b))


def _bit(fb, name):
    def f(a, b):
        if isinstance(a, (B, bool, np.bool_)) and isinstance(b, (B, bool, np.bool_)):
            return fb(a, b)
        raise TypeError("ufunc '%s' not supported for the input types" % name)

    return f


UF["bitwise_and"] = _bit(C.b_and, "bitwise_and")
UF["bitwise_or"] = _bit(C.b_or, "bitwise_or")
UF["bitwise_xor"] = _bit(C.b_xor, "bitwise_xor")


def _inv(a):
    if isinstance(a, (B, bool, np.bool_)):
        return C.b_not(a)
    raise TypeError("ufunc 'invert' not supported for the input types")


UF["invert"] = _inv
UF["bitwise_not"] = _inv


def ufunc_dispatch(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    f = UF.get(name)
    kw = {k: v for k, v in kw.items() if k not in ("casting", "order", "dtype", "subok", "signature")}
    where = kw.pop("where", True)
    if any(hasattr(x, "index") and hasattr(x, "values") and hasattr(x, "iloc") for x in inputs):
        return NotImplemented
    if name == "matmul" and method == "__call__":
        return NP.dot(*inputs)
    if f is None:
        raise Unsupported("ufunc %s" % name)
    if method == "__call__":
        r = ew(f, *inputs)
        if where is not True:
            old = out[0] if out else None
            w = toA(where)
            if old is None:
                old = mkA([NAN] * (r.size if isinstance(r, np.ndarray) else 1), getattr(r, "shape", ()))
            r = ew(lambda c, x, y: _sel(c, x, y), w, r, old)
        if out:
            o = out[0]
            if isinstance(o, A):
                np.ndarray.__setitem__(o.view(np.ndarray), Ellipsis, toA(r).view(np.ndarray))
                return o
            return _store_native(o, r)
        return r
    a = inputs[0]
    if method == "reduce":
        axis = kw.get("axis", 0)
        return reduce_axis(a, axis, kw.get("keepdims", False), lambda xs: _fold(f, xs, name, kw.get("initial")))
    if method == "accumulate":
        axis = kw.get("axis", 0)
        return along(a, axis, lambda xs: _accum(f, xs))
    if method == "outer":
        x, y = toA(inputs[0]), toA(inputs[1])
        return ew(f, x.reshape(x.shape + (1,) * y.ndim), y)
    raise Unsupported("ufunc method %s.%s" % (name, method))


def _store_native(o, r):
    """in-place op on a native array with a symbolic result"""
    r = settle(toA(r))
    if isinstance(r, A):
        raise Unsupported("symbolic result stored in place into a native array")
    o[...] = r
    return o


IDENT = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}


def _fold(f, xs, name, initial=None):
    xs = list(xs)
    if initial is not None:
        xs = [initial] + xs
    if not xs:
        if name in IDENT:
            return norm_el(IDENT[name])
        raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
    r = xs[0] if name not in ("logical_and", "logical_or") else as_b(xs[0])
    if name == "add":
        return ssum(xs)
    for x in xs[1:]:
        r = f(_num(r), _num(x))
    return r


def _accum(f, xs):
    out = []
    for x in xs:
        out.append(x if not out else f(_num(out[-1]), _num(x)))
    return out


def ssum(xs):
    r = S(F0)
    for x in xs:
        r = C.s_add(r, lift(x))
    return r


def along(a, axis, f):
    """apply f (list -> list) along axis"""
    a = toA(a)
    if axis is None:
        return mkA(f(list(a.view(np.ndarray).reshape(-1))))
    b = np.moveaxis(a.view(np.ndarray), axis, -1)
    rows = [f(list(r)) for r in b.reshape(-1, b.shape[-1])] if b.size or b.shape[-1] == 0 else []
    m = len(rows[0]) if rows else b.shape[-1]
    flat = [x for r in rows for x in r]
    out = mkA(flat, b.shape[:-1] + (m,)).view(np.ndarray)
    return settle(np.moveaxis(out, -1, axis).view(A))


def reduce_axis(a, axis, keepdims, f):
    a = toA(a)
    b = a.view(np.ndarray)
    if axis is None:
        r = norm_el(f(list(b.reshape(-1))))
        return settle(mkA([r], (1,) * b.ndim)) if keepdims else r
    if isinstance(axis, tuple):
        axes = sorted(x % b.ndim for x in axis)
        rest = [i for i in range(b.ndim) if i not in axes]
        c = b.transpose(rest + axes).reshape([b.shape[i] for i in rest] + [-1])
        r = reduce_axis(c.view(A), -1, False, f)
        if keepdims:
            r = toA(r).reshape([1 if i in axes else b.shape[i] for i in range(b.ndim)])
        return r
    axis = int(axis)
    if b.ndim == 0:
        return norm_el(f([b[()]]))
    m = np.moveaxis(b, axis, -1)
    sh = m.shape[:-1]
    rows = m.reshape((-1, m.shape[-1])) if m.size else np.empty((int(np.prod(sh)), m.shape[-1]), dtype=object)
    vals = [f(list(r)) for r in rows]
    if sh == ():
        r = norm_el(vals[0])
        return settle(mkA([r])) if keepdims else r
    out = mkA(vals, sh)
    if keepdims:
        out = np.expand_dims(out.view(np.ndarray), axis).view(A)
    return settle(out)


def _sel(c, x, y):
    c = as_b(c)
    if not isinstance(c, B):
        return x if c else y
    if isinstance(x, (B, bool, np.bool_)) and isinstance(y, (B, bool, np.bool_)):
        return C.b_or(C.b_and(c, x), C.b_and(C.b_not(c), y))
    lx, ly = lift(x), lift(y)
    if lx is None or ly is None:
        return x if bool(c) else y
    return C.s_ite(c, lx, ly)


# --------------------------------------------------------------------------------------------------
# sorting: forks on comparisons
def lt_(a, b):
    """decided strict order with NaN last"""
    la, lb = lift(a), lift(b)
    if nf(la) and np.isnan(la):
        return False
    if nf(lb) and np.isnan(lb):
        return True
    return bool(C.s_lt(la, lb))


def sort_idx(xs):
    """stable insertion argsort (binary search keeps the number of forks low)"""
    out = []
    for i, x in enumerate(xs):
        lo, hi = 0, len(out)
        # already in order? (common case)
        if out and not lt_(x, xs[out[-1]]):
            out.append(i)
            continue
        hi = max(0, len(out) - 1) if out else 0
        while lo < hi:
            mid = (lo + hi) // 2
            if lt_(x, xs[out[mid]]):
                hi = mid
            else:
                lo = mid + 1
        out.insert(lo, i)
    return out


def sort_cached(xs):
    """sort with identical terms grouped first (fast for many repeated values)"""
    groups = {}
    order = []
    for i, x in enumerate(xs):
        l = lift(x)
        k = ("c", l.e) if isinstance(l, S) and l.const else ("i", id(x)) if nf(l) is False and l.lf else ("t", l.e.get_id()) if not nf(l) else ("n", float(l) if not np.isnan(l) else "nan")
        if k not in groups:
            groups[k] = []
            order.append((k, x))
        groups[k].append(i)
    idx = sort_idx([x for _, x in order])
    return [i for j in idx for i in groups[order[j][0]]]


def lifted_idx(xs):
    if len(xs) > 24:
        ids = sort_cached(xs)
        return ids
    return sort_idx(xs)


# --------------------------------------------------------------------------------------------------
_NARROW = {"float32": 24, "float16": 11}


def narrow(x, bits):
    """rounding to a narrower float type: any value within half an ulp, monotone, one value per term"""
    l = lift(x)
    if nf(l):
        return l
    if l.const:
        f = (np.float32 if bits == 24 else np.float16)(float(l.e))
        return S(Fraction(float(f))) if np.isfinite(f) else np.float64(f)
    if l.lf:
        raise Unsupported("float%d of a logarithm" % (32 if bits == 24 else 16))
    c = C.ctx()
    tab = c.__dict__.setdefault("narrow_tab", {})
    k = (c.tid(l.e), bits)
    if k not in tab:
        f = c.fresh("rnd")
        e = z3.ToReal(l.e) if z3.is_int(l.e) else l.e
        a = z3.If(e >= 0, e, -e) * C.zval(Fraction(1, 2 ** bits))
        c.add(z3.And(f - e <= a, e - f <= a))
        for (_, b2), (e2, f2) in tab.items():
            if b2 == bits:
                c.add(z3.And(z3.Implies(e <= e2, f <= f2), z3.Implies(e2 <= e, f2 <= f)))
        tab[k] = (e, f)
    return S(tab[k][1])


def narrow_bits(dt):
    try:
        return _NARROW.get(np.dtype(unt(dt)).name)
    except TypeError:
        return None


def astype(a, dt):
    dt = unt(dt)
    nb = narrow_bits(dt) if dt is not None else None
    if nb:
        return mkA([narrow(x, nb) for x in toA(a).view(np.ndarray).reshape(-1)], a.shape)
    if isinstance(dt, type) and dt in (float, np.float64, np.float32, np.floating) or dt in ("float", "float64", "f", "f8", "d", "float32") or isinstance(dt, np.dtype) and dt.kind == "f":
        return mkA([lift(x) for x in toA(a).view(np.ndarray).reshape(-1)], a.shape)
    if dt in (bool, np.bool_, "bool", "?") or isinstance(dt, np.dtype) and dt.kind == "b":
        return settle(mkA([as_b(x) for x in toA(a).view(np.ndarray).reshape(-1)], a.shape))
    if dt in (int, np.int64, np.int32, np.intp, "int", "int64", "i") or isinstance(dt, np.dtype) and dt.kind in "iu":
        return np.array([int(x) for x in toA(a).view(np.ndarray).reshape(-1)], dtype=int).reshape(a.shape)
    if dt in (object, "object", "O") or isinstance(dt, np.dtype) and dt.kind == "O":
        return a.copy()
    raise Unsupported("astype(%r)" % (dt,))


def cast_scalar(x, dt):
    r = astype(toA([x]), dt)
    return r[0]


def is_float_dt(dt):
    if dt is None or isinstance(dt, PyType) and dt.t is float:
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


class PyType:
    """unused marker"""

    t = None


def unt(dt):
    """map overridden builtins back to real dtypes"""
    return getattr(dt, "__sx_type__", dt)


class RC:
    def __init__(self, real, axis):
        self.real, self.ax = real, axis

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, str) for k in key):
            return self.real[key]
        if not any(has_sym(k) or isinstance(k, float) or (isinstance(k, np.ndarray) and k.dtype.kind == "f") for k in key):
            return exactify(self.real[key])
        if self.ax == 0:
            parts = []
            for k in key:
                if isinstance(k, slice):
                    k = self.real[k]
                p = toA(k)
                parts.append(p.reshape(1) if p.ndim == 0 else p)
            return NP.concatenate(parts, axis=0 if parts[0].ndim == 1 else -1)
        parts = []
        for k in key:
            p = toA(k)
            if p.ndim == 0:
                p = p.reshape(1, 1)
            elif p.ndim == 1:
                p = p.reshape(-1, 1)
            parts.append(p)
        return NP.concatenate(parts, axis=-1)


class Shim:
    """module-like: attribute access falls back to numpy"""

    def __init__(self):
        self.__name__ = "numpy"
        self.inf, self.nan, self.pi, self.e = np.inf, np.nan, np.pi, np.e
        self.Inf = self.infty = np.inf
        self.NaN = self.NAN = np.nan
        self.newaxis = None
        self.r_, self.c_ = RC(np.r_, 0), RC(np.c_, 1)
        self.ndarray = np.ndarray
        from . import rnd

        self.random = rnd.RandomShim()

    def __getattr__(self, name):
        real = getattr(np, name)
        if isinstance(real, np.ufunc):
            return UfuncShim(real)
        if isinstance(real, types.FunctionType) or (callable(real) and not isinstance(real, type)):
            return _wrap_real(real)
        return real


def _wrap_real(real):
    def f(*a, **k):
        k = {kk: unt(v) for kk, v in k.items()}
        a = tuple(unt(x) for x in a)
        r = real(*a, **k)
        if isinstance(r, np.ndarray) and not isinstance(r, A) and r.dtype == object and has_sym(r):
            r = r.view(A)
        return exactify(r)

    f.__name__ = getattr(real, "__name__", "f")
    return f


class UfuncShim:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin, self.nout = uf.nin, uf.nout

    def _native(self, args):
        return not any(has_sym(a) for a in args)

    def __call__(self, *args, **kw):
        out = kw.get("out")
        kw.pop("out", None)
        args = list(args)
        if len(args) > self.uf.nin:
            out = args[self.uf.nin]
            args = args[: self.uf.nin]
        if isinstance(out, tuple):
            out = out[0]
        kw = {k: unt(v) for k, v in kw.items()}
        if any(hasattr(x, "iloc") and not isinstance(x, np.ndarray) for x in args):
            return self.uf(*args, **kw)
        if self._native(args) and (out is None or not isinstance(out, A)):
            fl = any(isinstance(a, float) or isinstance(a, np.ndarray) and a.dtype.kind == "f" or isinstance(a, (list, tuple)) for a in args)
            nm = self.uf.__name__
            if nm in ("isnan", "isfinite", "isinf") or not (fl or nm in ("divide", "true_divide", "sqrt", "exp", "log", "log1p", "expm1", "log2", "log10", "power", "float_power", "reciprocal")):
                r = self.uf(*args, **({"out": out} if out is not None else {}), **kw)
                return exactify(r)
            if nm not in UF:
                return exactify(self.uf(*args, **kw))
        return ufunc_dispatch(self.uf, "__call__", tuple(args), (out,) if out is not None else None, kw)

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, **kw):
        if self._native([a]):
            return exactify(self.uf.reduce(a, axis=axis, keepdims=keepdims, **kw))
        return ufunc_dispatch(self.uf, "reduce", (a,), None, dict(axis=axis, keepdims=keepdims, **kw))

    def accumulate(self, a, axis=0, **kw):
        if self._native([a]):
            return exactify(self.uf.accumulate(a, axis=axis))
        return ufunc_dispatch(self.uf, "accumulate", (a,), None, dict(axis=axis))

    def outer(self, a, b, **kw):
        return ufunc_dispatch(self.uf, "outer", (a, b), None, {})

    def at(self, a, idx, b=None):
        if self._native([a, b]) and not isinstance(a, A):
            return self.uf.at(a, idx, b)
        f = UF[self.__name__]
        idx = fix_index(idx)
        bb = np.broadcast_to(toA(b).view(np.ndarray), np.shape(idx)) if b is not None else None
        for j, i in enumerate(np.reshape(idx, -1)):
            a[i] = f(_num(a[i]), _num(bb.reshape(-1)[j]))


NP = Shim()


def model(fn):
    setattr(NP, fn.__name__.rstrip("_"), fn)
    return fn


def sym(*xs):
    return any(has_sym(x) for x in xs)


# ---- creation
@model
def zeros(shape, dtype=float, order="C", **k):
    dtype = unt(dtype)
    shape = fix_shape(shape)
    if np.dtype(dtype).kind == "f":
        return toA(np.zeros(shape))
    return np.zeros(shape, dtype=dtype)


def fix_shape(shape):
    if isinstance(shape, (tuple, list)):
        return tuple(int(s) for s in shape)
    return int(shape)


@model
def ones(shape, dtype=float, order="C", **k):
    dtype = unt(dtype)
    shape = fix_shape(shape)
    if np.dtype(dtype).kind == "f":
        return toA(np.ones(shape))
    return np.ones(shape, dtype=dtype)


@model
def empty(shape, dtype=float, order="C", **k):
    dtype = unt(dtype)
    shape = fix_shape(shape)
    if np.dtype(dtype).kind == "f":
        return toA(np.full(shape, np.nan))
    return np.zeros(shape, dtype=dtype)


@model
def full(shape, fill_value, dtype=None, order="C", **k):
    dtype = unt(dtype)
    shape = fix_shape(shape)
    if dtype is not None and np.dtype(dtype).kind in "bi":
        return np.full(shape, fill_value, dtype=dtype)
    if dtype is None and isinstance(fill_value, (bool, np.bool_, int, np.integer)):
        return np.full(shape, fill_value)
    a = np.empty(shape, dtype=object)
    a[...] = norm_el(fill_value)
    return a.view(A)


def _like(f):
    def g(a, dtype=None, **k):
        dtype = unt(dtype)
        if dtype is None:
            dtype = a.dtype if hasattr(a, "dtype") else np.asarray(a).dtype
        if dtype == object:
            dtype = float
        return f(np.shape(a) if not hasattr(a, "shape") else a.shape, dtype=dtype)

    return g


NP.zeros_like, NP.ones_like, NP.empty_like = _like(zeros), _like(ones), _like(empty)
NP.full_like = lambda a, v, dtype=None, **k: full(a.shape, v, dtype=dtype or (a.dtype if a.dtype.kind != "O" else None))


@model
def array(obj, dtype=None, copy=True, ndmin=0, **k):
    dtype = unt(dtype)
    if isinstance(obj, A):
        r = obj.copy()
        return r if dtype is None else astype(r, dtype)
    if hasattr(obj, "iloc"):
        obj = obj.values
        return array(obj, dtype=dtype)
    if sym(obj):
        r = toA(obj)
        r = r.copy() if isinstance(obj, np.ndarray) else r
    else:
        if dtype is not None and np.dtype(dtype).kind != "f":
            return np.array(obj, dtype=dtype, ndmin=ndmin)
        r = exactify(np.array(obj, ndmin=ndmin))
    if dtype is not None:
        r = astype(r, dtype)
    while r.ndim < ndmin:
        r = r[None]
    return settle(r) if r.ndim else r


@model
def asarray(obj, dtype=None, **k):
    dtype = unt(dtype)
    if isinstance(obj, A) and (dtype is None or np.dtype(dtype).kind == "f" and not narrow_bits(dtype)):
        return obj
    if isinstance(obj, np.ndarray) and rawdt(obj).kind in "biOSU" and not has_sym(obj) and dtype is None:
        return obj
    return array(obj, dtype=dtype)


NP.asanyarray = NP.ascontiguousarray = NP.asfarray = asarray


@model
def copy(a, **k):
    return a.copy() if isinstance(a, np.ndarray) else array(a)


@model
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = lift(start), lift(stop)
    div = (num - 1) if endpoint else num
    out = []
    for i in range(num):
        t = Fraction(i, div) if div else F0
        out.append(C.s_add(a, C.s_mul(S(t), C.s_sub(b, a))))
    return mkA(out)


@model
def arange(*args, **k):
    if any(isinstance(a, (S, float)) for a in args):
        ls = [lift(a) for a in args]
        if all(l.const for l in ls):
            if all(l.e.denominator == 1 for l in ls):
                return toA(np.arange(*[int(l.e) for l in ls]).astype(float))
            st, en, sp = (S(F0), ls[0], S(F1)) if len(ls) == 1 else (ls[0], ls[1], ls[2] if len(ls) > 2 else S(F1))
            n = max(0, math.ceil((en.e - st.e) / sp.e))
            return mkA([S(st.e + i * sp.e) for i in range(n)])
        raise Unsupported("arange of symbolic bounds")
    k = {a: unt(b) for a, b in k.items()}
    return exactify(np.arange(*args, **k))


@model
def eye(n, m=None, k=0, dtype=float, **kw):
    dtype = unt(dtype)
    r = np.eye(int(n), None if m is None else int(m), k, dtype=dtype)
    return exactify(r)


@model
def identity(n, dtype=float, **k):
    return eye(n, dtype=dtype)


# ---- shape things
@model
def ndim(a):
    if isinstance(a, (S, B)):
        return 0
    if isinstance(a, np.ndarray):
        return a.ndim
    if isinstance(a, (list, tuple)):
        return toA(a).ndim if sym(a) else np.ndim(a)
    return np.ndim(a)


@model
def shape(a):
    if isinstance(a, (S, B)):
        return ()
    return a.shape if hasattr(a, "shape") else toA(a).shape if sym(a) else np.shape(a)


@model
def size(a, axis=None):
    if isinstance(a, (S, B)):
        return 1
    a = a if hasattr(a, "size") else toA(a)
    return a.size if axis is None else a.shape[axis]


@model
def isscalar(x):
    return isinstance(x, (S, B)) or np.isscalar(x)


def _native_list(xs):
    return not sym(*xs)


@model
def concatenate(arrs, axis=0, out=None, dtype=None, **k):
    arrs = [a for a in arrs]
    if _native_list(arrs):
        return exactify(np.concatenate(arrs, axis=axis))
    bs = [toA(a).view(np.ndarray) for a in arrs]
    r = np.concatenate(bs, axis=axis)
    return settle(r.view(A))


NP.concat = concatenate


@model
def stack(arrs, axis=0, **k):
    arrs = list(arrs)
    if _native_list(arrs):
        return exactify(np.stack(arrs, axis=axis))
    return settle(np.stack([toA(a).view(np.ndarray) for a in arrs], axis=axis).view(A))


def _stk(nm):
    def f(arrs, **k):
        arrs = list(arrs)
        if _native_list(arrs):
            return exactify(getattr(np, nm)(arrs))
        return settle(getattr(np, nm)([toA(a).view(np.ndarray) for a in arrs]).view(A))

    return f


for _n in ("hstack", "vstack", "column_stack", "dstack", "row_stack"):
    setattr(NP, _n, _stk(_n))


@model
def append(a, b, axis=None):
    if axis is None:
        return concatenate([toA(a).reshape(-1), toA(b).reshape(-1)])
    return concatenate([a, b], axis=axis)


@model
def insert(arr, obj, values, axis=None):
    a = toA(arr)
    v = toA(values)
    r = np.insert(a.view(np.ndarray), fix_index(obj), v.view(np.ndarray)[()] if v.ndim == 0 else v.view(np.ndarray), axis=axis)
    return r.view(A)


@model
def delete(arr, obj, axis=None):
    if not sym(arr):
        return exactify(np.delete(arr, obj, axis))
    return np.delete(toA(arr).view(np.ndarray), fix_index(obj), axis).view(A)


def _shapefn(nm):
    def f(a, *args, **k):
        if isinstance(a, (list, tuple, S, B)):
            a = array(a)
        if not isinstance(a, A):
            return exactify(getattr(np, nm)(a, *args, **k))
        return settle(getattr(np, nm)(a.view(np.ndarray), *args, **k).view(A))

    return f


for _n in "reshape ravel transpose swapaxes moveaxis expand_dims squeeze repeat tile flip fliplr flipud broadcast_to atleast_1d atleast_2d diag roll take tril triu rollaxis".split():
    setattr(NP, _n, _shapefn(_n))
_take0 = NP.take
NP.take = lambda a, idx, axis=None, **k: _take0(a, fix_index(idx), axis=axis, **k)


@model
def take_along_axis(a, idx, axis):
    if not sym(a):
        return exactify(np.take_along_axis(a, fix_index(idx), axis))
    return np.take_along_axis(toA(a).view(np.ndarray), fix_index(idx), axis).view(A)


@model
def split(a, *args, **k):
    return [x.view(A) for x in np.split(toA(a).view(np.ndarray), *args, **k)]


@model
def compress(cond, a, axis=None, **k):
    return toA(a)[fix_index(toA(cond))] if axis is None else np.compress(fix_index(toA(cond)), toA(a).view(np.ndarray), axis=axis).view(A)


@model
def extract(cond, a):
    return toA(a).reshape(-1)[fix_index(toA(cond).reshape(-1))]


# ---- reductions
def _red(name, f):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True, **k):
        if out is not None and isinstance(out, (bool,)):
            out = None
        if hasattr(a, "iloc") and not isinstance(a, np.ndarray):
            a = a.values
        if where is not True:
            raise Unsupported("where= in reduction")
        if not sym(a):
            native = np.asarray(a)
            if native.dtype.kind in "bi" and name not in ("mean", "std", "var", "median") or native.dtype.kind not in "bif":
                return exactify(getattr(np, name)(native, axis=axis, keepdims=keepdims))
        kk = dict(k)
        return reduce_axis(a if isinstance(a, np.ndarray) else toA(a), axis, keepdims, lambda xs: f(xs, **kk))

    g.__name__ = name
    setattr(NP, name, g)
    return g


_red("sum", lambda xs: ssum(xs))


def _prod(xs):
    r = S(F1)
    for x in xs:
        r = C.s_mul(r, lift(x))
    return r


_red("prod", _prod)
NP.product = NP.prod


def _mean(xs):
    if not xs:
        return NAN
    return C.s_div(ssum(xs), S(Fraction(len(xs))))


_red("mean", _mean)


def _var(xs, ddof=0):
    ddof = int(ddof)
    n = len(xs)
    if n == 0:
        return NAN
    xs = [lift(x) for x in xs]
    if any(nf(x) for x in xs):
        return NAN
    if abs_stats() and n > max(1, ddof):
        s = _std(xs, ddof)
        v = C.s_mul(s, s)
        C.ctx().__dict__.setdefault("sqrt_of", {})[C.ctx().tid(z3.simplify(v.z()))] = (v.z(), s)
        return v
    m = _mean(xs)
    ds = [C.s_sub(x, m).plain() for x in xs]
    tot = ssum([C.s_mul(d, d) for d in ds])
    return C.s_div(tot, S(Fraction(n - ddof))) if n != ddof else (NAN if bool(C.s_eq(tot, S(F0))) else INF)


def all_equal(xs):
    return C.b_all([C.s_eq(xs[0], x) for x in xs[1:]]) if len(xs) > 1 else C.b_all([])


def uf_sample(name, extra, xs, axiom, k=1):
    """uninterpreted, permutation invariant statistic of a finite sample (opts abs_stats): congruent, plus an axiom"""
    import itertools

    cx = C.ctx()
    zs = [z3.simplify(x.plain().z(), som=True) for x in xs]
    reg = cx.__dict__.setdefault("uf_reg", {}).setdefault((name, extra, len(zs)), [])
    key = sorted(cx.tid(z) for z in zs)
    for kk, zz, out in reg:
        if kk == key:
            return out
    out = [cx.fresh(name) for _ in range(k)]
    cx.add(axiom(*out))
    perms = list(itertools.permutations(range(len(zs)))) if len(zs) <= 3 else [tuple(range(len(zs)))]
    for kk, zz, oo in reg:
        same = z3.Or([z3.And([a == zz[j] for a, j in zip(zs, p)]) for p in perms])
        cx.add(z3.Implies(same, z3.And([a == b for a, b in zip(out, oo)])))
    reg.append((key, zs, out))
    return out


def abs_stats():
    return bool(C.ctx().opts.get("abs_stats"))


def _std(xs, ddof=0):
    ddof = int(ddof)
    if abs_stats() and len(xs) > max(1, ddof):
        xs = [lift(x) for x in xs]
        if not any(nf(x) for x in xs):
            eq = C.zb(all_equal(xs))
            return S(uf_sample("std", ddof, xs, lambda v: z3.And(v >= 0, (v == 0) == eq))[0])
    v = _var(xs, ddof)
    return v if nf(v) else C.s_sqrt(v)


_red("var", _var)
_red("std", _std)


def _minmax(f):
    def g(xs):
        if not xs:
            raise ValueError("zero-size array to reduction operation which has no identity")
        r = lift(xs[0])
        for x in xs[1:]:
            r = f(r, lift(x))
        return r

    return g


_red("max", _minmax(C.s_max))
_red("min", _minmax(C.s_min))
NP.amax, NP.amin = NP.max, NP.min
_red("nanmax", _minmax(C.s_fmax))
_red("nanmin", _minmax(C.s_fmin))
_red("nansum", lambda xs: ssum([x for x in xs if not (nf(lift(x)) and np.isnan(lift(x)))]))
_red("nanmean", lambda xs: _mean([x for x in xs if not (nf(lift(x)) and np.isnan(lift(x)))]))
_red("all", lambda xs: C.b_all(xs))
_red("any", lambda xs: C.b_any(xs))
NP.alltrue, NP.sometrue = NP.all, NP.any
_red("count_nonzero", lambda xs: ssum([as_b(x) for x in xs]))


def _median(xs):
    idx = sort_idx(xs)
    n = len(xs)
    v = [xs[i] for i in idx]
    return lift(v[n // 2]) if n % 2 else C.s_div(C.s_add(lift(v[n // 2 - 1]), lift(v[n // 2])), S(Fraction(2)))


_red("median", _median)


@model
def ptp(a, axis=None, **k):
    return ew(num2(C.s_sub), NP.max(a, axis=axis), NP.min(a, axis=axis))


@model
def average(a, axis=None, weights=None, returned=False, **k):
    if weights is None:
        return NP.mean(a, axis=axis)
    a, w = toA(a), toA(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = -1
        w = np.broadcast_to(w.view(np.ndarray).reshape(sh), a.shape).view(A)
    return ew(num2(C.s_div), NP.sum(ew(num2(C.s_mul), a, w), axis=axis), NP.sum(w, axis=axis))


def _argext(cmp):
    def f(xs):
        best = 0
        if nf(lift(xs[0])) and np.isnan(lift(xs[0])):
            return 0
        for i in range(1, len(xs)):
            l = lift(xs[i])
            if nf(l) and np.isnan(l):
                return i
            if bool(cmp(l, lift(xs[best]))):
                best = i
        return best

    return f


def _arg(name, cmp):
    f = _argext(cmp)

    def g(a, axis=None, out=None, **k):
        if not sym(a):
            return getattr(np, name)(a, axis=axis)
        b = toA(a).view(np.ndarray)
        if axis is None:
            return np.intp(f(list(b.reshape(-1))))
        m = np.moveaxis(b, axis, -1)
        r = np.array([f(list(x)) for x in m.reshape(-1, m.shape[-1])], dtype=np.intp)
        return r.reshape(m.shape[:-1])[()]

    setattr(NP, name, g)


_arg("argmin", C.s_lt)
_arg("argmax", C.s_gt)


@model
def cumsum(a, axis=None, dtype=None, out=None):
    if not sym(a) and np.asarray(a).dtype.kind in "bi":
        return np.cumsum(a, axis=axis)
    return along(a, axis, lambda xs: _accum(lambda p, q: C.s_add(lift(p), lift(q)), [lift(x) for x in xs]))


@model
def cumprod(a, axis=None, **k):
    return along(a, axis, lambda xs: _accum(lambda p, q: C.s_mul(lift(p), lift(q)), [lift(x) for x in xs]))


@model
def diff(a, n=1, axis=-1, prepend=None, append=None):
    if not sym(a, prepend, append):
        kw = {}
        if prepend is not None:
            kw["prepend"] = prepend
        if append is not None:
            kw["append"] = append
        return exactify(np.diff(a, n=n, axis=axis, **kw))
    a = toA(a)
    if prepend is not None or append is not None:
        ps = []
        for p, first in ((prepend, True), (append, False)):
            if p is not None:
                p = toA(p)
                if p.ndim == 0:
                    sh = list(a.shape)
                    sh[axis] = 1
                    p = np.broadcast_to(p.view(np.ndarray), sh).view(A)
                ps.append((p, first))
        parts = [p for p, f in ps if f] + [a] + [p for p, f in ps if not f]
        a = toA(concatenate(parts, axis=axis))
    for _ in range(n):
        isb = fake_dtype(a).kind == "b"
        f = (lambda p, q: C.b_xor(p, q)) if isb else (lambda p, q: C.s_sub(lift(q), lift(p)))
        a = along(a, axis, lambda xs: [f(xs[i], xs[i + 1]) for i in range(len(xs) - 1)])
    return a


@model
def trapz(y, x=None, dx=1.0, axis=-1):
    y = toA(y)
    if x is None:
        d = ew(lambda q: q, lift(dx))
    else:
        x = toA(x)
        d = diff(x, axis=axis if x.ndim > 1 else -1)
    yb = np.moveaxis(y.view(np.ndarray), axis, -1)
    s = ew(num2(C.s_add), yb[..., 1:].view(A), yb[..., :-1].view(A))
    db = np.moveaxis(toA(d).view(np.ndarray), axis, -1).view(A) if np.ndim(d) > 1 else d
    p = ew(num2(C.s_mul), db, s)
    p = ew(num2(C.s_div), p, S(Fraction(2)))
    return NP.sum(p, axis=-1)


NP.trapezoid = trapz


@model
def dot(a, b, out=None):
    if not sym(a, b) and np.asarray(a).dtype.kind in "bi" and np.asarray(b).dtype.kind in "bi":
        return np.dot(a, b)
    a, b = toA(a).view(np.ndarray), toA(b).view(np.ndarray)
    if a.ndim == 0 or b.ndim == 0:
        return ew(num2(C.s_mul), a.view(A), b.view(A))

    def ip(u, v):
        return ssum([C.s_mul(lift(p), lift(q)) for p, q in zip(u, v)])

    if a.ndim == 1 and b.ndim == 1:
        if len(a) != len(b):
            raise ValueError("shapes not aligned")
        return ip(a, b)
    if a.ndim == 2 and b.ndim == 1:
        return mkA([ip(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return mkA([ip(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        if a.shape[1] != b.shape[0]:
            raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
        return mkA([ip(r, b[:, j]) for r in a for j in range(b.shape[1])], (a.shape[0], b.shape[1]))
    raise Unsupported("dot ndim")


NP.matmul = NP.inner_ = dot
NP.inner = lambda a, b: dot(a, np.transpose(toA(b).view(np.ndarray)).view(A) if np.ndim(b) > 1 else b)
NP.vdot = dot


@model
def outer(a, b, out=None):
    a, b = toA(a).reshape(-1), toA(b).reshape(-1)
    return ew(num2(C.s_mul), a.reshape(-1, 1), b)


@model
def einsum(spec, *ops, **k):
    ops = [toA(o).view(np.ndarray) for o in ops]
    ins, _, outp = spec.replace(" ", "").partition("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    if not _:
        raise Unsupported("implicit einsum")
    summed = [c for c in dims if c not in outp]
    res = []
    for oi in itertools.product(*[range(dims[c]) for c in outp]):
        tot = S(F0)
        for si_ in itertools.product(*[range(dims[c]) for c in summed]):
            m = dict(zip(outp, oi))
            m.update(zip(summed, si_))
            t = S(F1)
            for s, o in zip(ins, ops):
                t = C.s_mul(t, lift(o[tuple(m[c] for c in s)]))
            tot = C.s_add(tot, t)
        res.append(tot)
    return settle(mkA(res, tuple(dims[c] for c in outp)))


# ---- logic / selection
@model
def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)
    if not sym(c, x, y) and not any(isinstance(q, float) or isinstance(q, np.ndarray) and q.dtype.kind == "f" for q in (x, y)):
        return exactify(np.where(c, x, y))
    return ew(_sel, toA(c), x if isinstance(x, np.ndarray) else toA(x), y if isinstance(y, np.ndarray) else toA(y))


@model
def nonzero(a):
    if not sym(a):
        return np.nonzero(a)
    a = toA(a)
    m = np.array([bool(as_b(x)) for x in a.view(np.ndarray).reshape(-1)], dtype=bool).reshape(a.shape)
    return np.nonzero(m)


@model
def flatnonzero(a):
    return nonzero(toA(a).reshape(-1) if sym(a) else np.ravel(a))[0]


@model
def argwhere(a):
    return np.transpose(np.array(nonzero(a)))


@model
def select(conds, choices, default=0):
    r = toA(default)
    for c, v in list(zip(conds, choices))[::-1]:
        r = where(c, v, r)
    return r


@model
def clip(a, a_min=None, a_max=None, out=None, **k):
    args = [a]
    if a_min is None and a_max is None:
        raise ValueError("One of max or min must be given")
    r = a
    if a_min is not None:
        r = ew(num2(C.s_max), r, a_min)
    if a_max is not None:
        r = ew(num2(C.s_min), r, a_max)
    return r


@model
def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    rt, at = lift(rtol), lift(atol)

    def f(x, y):
        x, y = lift(x), lift(y)
        if nf(x) or nf(y):
            if nf(x) and nf(y) and np.isnan(x) and np.isnan(y):
                return np.bool_(equal_nan)
            return C.s_eq(x, y)
        d = C.s_sub(x, y).plain()
        if d.const and d.e == 0:
            return TRUE
        return C.s_le(C.s_abs(d), C.s_add(at, C.s_mul(rt, C.s_abs(y))))

    return ew(f, a, b)


@model
def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return NP.all(isclose(a, b, rtol, atol, equal_nan))


@model
def array_equal(a, b, equal_nan=False):
    a, b = toA(a), toA(b)
    if a.shape != b.shape:
        return False
    return NP.all(ew(_generic_eq, a, b))


@model
def isin(el, test, assume_unique=False, invert=False, **k):
    t = list(toA(test).view(np.ndarray).reshape(-1))
    r = ew(lambda x: C.b_any([_generic_eq(x, q) for q in t]), el)
    return ew(C.b_not, r) if invert else r


NP.in1d = isin


@model
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(x):
        x = lift(x)
        if nf(x):
            if np.isnan(x):
                return lift(nan)
            if x > 0:
                return lift(posinf if posinf is not None else 1.7976931348623157e308)
            return lift(neginf if neginf is not None else -1.7976931348623157e308)
        return x

    return ew(f, a)


@model
def round_(a, decimals=0, out=None):
    return ew(lambda x: C.s_rint(lift(x), decimals), a)


NP.around = NP.round_ = round_


@model
def fix(a):
    return ew(UF["trunc"], a)


@model
def real_if_close(a, tol=100):
    return a


NP.real = lambda a: a
NP.imag = lambda a: ew(lambda x: S(F0), a)
NP.isreal = lambda a: ew(lambda x: TRUE, a)
NP.iscomplex = lambda a: ew(lambda x: FALSE, a)
NP.iscomplexobj = lambda a: False
NP.isrealobj = lambda a: True


# ---- sorting & searching
@model
def argsort(a, axis=-1, kind=None, order=None, **k):
    if not sym(a):
        return np.argsort(a, axis=axis, kind=kind)
    b = toA(a).view(np.ndarray)
    if axis is None:
        return np.array(lifted_idx(list(b.reshape(-1))), dtype=np.intp)
    m = np.moveaxis(b, axis, -1)
    r = np.array([lifted_idx(list(x)) for x in m.reshape(-1, m.shape[-1])], dtype=np.intp).reshape(m.shape)
    return np.moveaxis(r, -1, axis)


@model
def sort(a, axis=-1, kind=None, order=None, **k):
    if not sym(a):
        return exactify(np.sort(a, axis=axis, kind=kind))
    return along(a, axis, lambda xs: [xs[i] for i in lifted_idx(xs)])


@model
def lexsort(keys, axis=-1):
    keys = [list(toA(k).view(np.ndarray)) for k in keys]
    idx = list(range(len(keys[0])))
    for k in keys:
        o = sort_idx([k[i] for i in idx])
        idx = [idx[j] for j in o]
    return np.array(idx, dtype=np.intp)


@model
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if not sym(ar):
        return exactify(np.unique(ar, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts))
    xs = list(toA(ar).view(np.ndarray).reshape(-1))
    idx = lifted_idx(xs)
    groups = []
    for i in idx:
        if groups and not lt_(xs[groups[-1][0]], xs[i]):
            groups[-1].append(i)
        else:
            groups.append([i])
    vals = settle(mkA([xs[g[0]] for g in groups]))
    out = [vals]
    if return_index:
        out.append(np.array([min(g) for g in groups], dtype=np.intp))
    if return_inverse:
        inv = np.zeros(len(xs), dtype=np.intp)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
        out.append(inv)
    if return_counts:
        out.append(np.array([len(g) for g in groups], dtype=np.intp))
    return out[0] if len(out) == 1 else tuple(out)


@model
def searchsorted(a, v, side="left", sorter=None):
    if not sym(a, v, sorter):
        return np.searchsorted(a, v, side=side, sorter=sorter)
    xs = list(toA(a).view(np.ndarray))
    if sorter is not None:
        xs = [xs[i] for i in sorter]

    def one(q):
        # binary search as numpy does (the result on unsorted input is whatever bisection gives)
        lo, hi = 0, len(xs)
        while lo < hi:
            mid = (lo + hi) // 2
            go = lt_(xs[mid], q) if side == "left" else not lt_(q, xs[mid])
            if go:
                lo = mid + 1
            else:
                hi = mid
        return lo

    vv = toA(v).view(np.ndarray)
    if vv.ndim == 0:
        return np.intp(one(vv[()]))
    return np.array([one(q) for q in vv.reshape(-1)], dtype=np.intp).reshape(vv.shape)


@model
def digitize(x, bins, right=False):
    return searchsorted(bins, x, side="left" if right else "right")


@model
def bincount(x, weights=None, minlength=0):
    if not sym(x, weights):
        return exactify(np.bincount(x, weights=weights, minlength=minlength))
    x = concrete_index(toA(x))
    n = max(int(minlength), (int(x.max()) + 1) if x.size else 0)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = list(toA(weights).view(np.ndarray))
    return mkA([ssum([w[i] for i in range(len(x)) if x[i] == j]) for j in range(n)])


def _pct_index(q01, n, method):
    """virtual index -> combination of order statistics. q01: S in [0,1]."""
    pos = C.s_mul(q01, S(Fraction(n - 1)))
    if method == "lower":
        return ("i", int(C.s_floor(pos)))
    if method == "higher":
        return ("i", int(C.s_ceil(pos)))
    if method == "nearest":
        return ("i", int(C.s_rint(pos)))
    if method == "inverted_cdf":
        nq = C.s_mul(q01, S(Fraction(n)))
        return ("i", max(0, int(C.s_ceil(nq)) - 1))
    lo = int(C.s_floor(pos))
    if method == "midpoint":
        hi = int(C.s_ceil(pos))
        return ("w", lo, hi, S(Fraction(1, 2)) if hi != lo else S(F0))
    if method == "linear":
        return ("w", lo, min(lo + 1, n - 1), C.s_sub(pos, S(Fraction(lo))))
    raise Unsupported("percentile method %s" % method)


def _quantile(a, q, axis, method, keepdims):
    a = toA(a)

    def one(qq):
        ql = lift(qq)
        if nf(ql) or not bool(C.b_and(C.s_ge(ql, S(F0)), C.s_le(ql, S(F1)))):
            raise ValueError("Quantiles must be in the range [0, 1]")

        def f(xs):
            if any(nf(lift(x)) and np.isnan(lift(x)) for x in xs):
                return NAN
            if not xs:
                return NAN
            sel = _pct_index(ql, len(xs), method)
            idx = lifted_idx(xs)
            if sel[0] == "i":
                return lift(xs[idx[sel[1]]])
            _, lo, hi, g = sel
            x, y = lift(xs[idx[lo]]), lift(xs[idx[hi]])
            if lo == hi or (g.const and g.e == 0):
                return x
            return C.s_add(x, C.s_mul(g, C.s_sub(y, x)))

        return reduce_axis(a, axis, keepdims, f)

    qa = q if isinstance(q, np.ndarray) else (toA(q) if isinstance(q, (list, tuple)) else q)
    if isinstance(qa, np.ndarray) and qa.ndim > 0:
        return stack([toA(one(x)) for x in toA(qa).view(np.ndarray).reshape(-1)], axis=0)
    return one(qa)


@model
def percentile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, interpolation=None):
    q = ew(lambda x: C.s_div(lift(x), S(Fraction(100))), q)
    return _quantile(a, q, axis, interpolation or method, keepdims)


@model
def quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, interpolation=None):
    return _quantile(a, q, axis, interpolation or method, keepdims)


NP.nanpercentile, NP.nanquantile = percentile, quantile


@model
def interp(x, xp, fp, left=None, right=None, period=None):
    """np.interp semantics on sorted xp with possible duplicates"""
    X, Fp = [lift(q) for q in toA(xp).view(np.ndarray)], [lift(q) for q in toA(fp).view(np.ndarray)]

    def one(q):
        q = lift(q)
        if nf(q) and np.isnan(q):
            return NAN
        if bool(C.s_lt(q, X[0])):
            return Fp[0] if left is None else lift(left)
        if bool(C.s_gt(q, X[-1])):
            return Fp[-1] if right is None else lift(right)
        lo, hi = 0, len(X)
        while lo < hi:  # last j with X[j] <= q
            mid = (lo + hi) // 2
            if bool(C.s_le(X[mid], q)):
                lo = mid + 1
            else:
                hi = mid
        j = lo - 1
        if j >= len(X) - 1:
            return Fp[-1]
        if bool(C.s_eq(X[j], q)):
            return Fp[j]
        sl = C.s_div(C.s_sub(Fp[j + 1], Fp[j]), C.s_sub(X[j + 1], X[j]))
        return C.s_add(C.s_mul(sl, C.s_sub(q, X[j])), Fp[j])

    return ew(one, x)


@model
def roots(p):
    cs = [lift(c) for c in toA(p).view(np.ndarray)]
    # strip leading zeros
    while cs and bool(C.s_eq(cs[0], S(F0))):
        cs = cs[1:]
    nz = 0
    while cs and bool(C.s_eq(cs[-1], S(F0))):
        cs = cs[:-1]
        nz += 1
    rts = []
    if len(cs) == 2:
        rts = [C.s_neg(C.s_div(cs[1], cs[0]))]
    elif len(cs) == 3:
        a, b, c = cs
        if abs_stats() and bool(C.b_and(C.s_gt(a, S(F0)), C.s_le(c, S(F0)))):
            cx = ctx()
            reg = cx.__dict__.setdefault("uf_roots", [])
            zs = [z3.simplify(q.plain().z(), som=True) for q in (a, b, c)]
            for zz, out in reg:
                if all(p.eq(q) for p, q in zip(zs, zz)):
                    return mkA([S(r) for r in out] + [S(F0)] * nz)
            out = [cx.fresh("root"), cx.fresh("root")]
            cx.add(z3.And(out[0] >= 0, out[1] <= 0, (out[0] == 0) == z3.And(zs[2] == 0, zs[1] >= 0)))
            for zz, oo in reg:
                cx.add(z3.Implies(z3.And([p == q for p, q in zip(zs, zz)]), z3.And(out[0] == oo[0], out[1] == oo[1])))
            reg.append((zs, out))
            return mkA([S(r) for r in out] + [S(F0)] * nz)
        disc = C.s_sub(C.s_mul(b, b), C.s_mul(S(Fraction(4)), C.s_mul(a, c)))
        if not bool(C.s_ge(disc, S(F0))):
            raise Unsupported("complex roots")
        # characterise the two roots directly: r1 >= r2, a(r1+r2) = -b, a r1 r2 = c
        cx = ctx()
        key = tuple(cx.tid(q.z()) for q in cs)
        reg = cx.__dict__.setdefault("root_reg", {})
        if key not in reg:
            r1, r2 = cx.fresh("root"), cx.fresh("root")
            cx.add(z3.And(r1 >= r2, a.z() * (r1 + r2) == -b.z(), a.z() * (r1 * r2) == c.z()))
            # each one satisfies the equation
            for r in (r1, r2):
                cx.add(a.z() * r * r + b.z() * r + c.z() == 0)
            reg[key] = (S(r1), S(r2))
        rts = list(reg[key])
    elif len(cs) > 3:
        raise Unsupported("roots of degree > 2")
    return mkA(rts + [S(F0)] * nz)


@model
def poly1d(*a, **k):
    raise Unsupported("poly1d")


@model
def polyval(p, x):
    r = S(F0)
    for c in toA(p).view(np.ndarray):
        r = r * x + lift(c)
    return r


@model
def vectorize(pyfunc=None, otypes=None, doc=None, excluded=None, cache=False, signature=None):
    excluded = set(excluded or ())

    def call(*args, **kw):
        if signature is None:
            arrs = [toA(a) if not (i in excluded) else a for i, a in enumerate(args)]
            return ew(lambda *xs: pyfunc(*xs, **kw), *[a for a in arrs])
        sig = signature.replace(" ", "")
        ins, outs = sig.split("->")
        core = [len([q for q in s.strip("()").split(",") if q]) for s in ins.split("),(")]
        pos = [i for i in range(len(args)) if i not in excluded]
        kpos = {}
        arrs = {i: (args[i] if isinstance(args[i], np.ndarray) else toA(args[i])) for i in pos}
        loops = []
        for j, i in enumerate(pos):
            nd = core[j]
            loops.append(arrs[i].shape[: arrs[i].ndim - nd])
        bshape = np.broadcast_shapes(*loops) if loops else ()
        bc = {}
        for j, i in enumerate(pos):
            nd = core[j]
            a = arrs[i]
            b = a.view(np.ndarray) if isinstance(a, A) else a
            bb = np.broadcast_to(b, bshape + b.shape[b.ndim - nd :])
            bc[i] = bb.view(A) if isinstance(a, A) else bb
        outs_ = []
        for ix in np.ndindex(*bshape):
            cargs = [bc[i][ix] if i in bc else args[i] for i in range(len(args))]
            outs_.append(pyfunc(*cargs, **kw))
        if not outs_:
            raise ValueError("cannot call `vectorize` on size 0 inputs unless `otypes` is set")
        if bshape == ():
            return outs_[0]
        st = stack([toA(o) for o in outs_], axis=0)
        return toA(st).reshape(bshape + toA(outs_[0]).shape)

    if pyfunc is None:
        return lambda f: vectorize(f, otypes, doc, excluded, cache, signature)
    call.__wrapped__ = pyfunc
    return call


@model
def apply_along_axis(f, axis, arr, *args, **k):
    b = np.moveaxis(toA(arr).view(np.ndarray), axis, -1)
    outs = [f(r.view(A), *args, **k) for r in b.reshape(-1, b.shape[-1])]
    o0 = toA(outs[0])
    r = stack([toA(o) for o in outs], 0)
    r = toA(r).reshape(b.shape[:-1] + o0.shape).view(np.ndarray)
    if o0.ndim == 1:
        r = np.moveaxis(r, -1, axis)
    return settle(r.view(A))


@model
def float64(x=0.0):
    if isinstance(x, np.ndarray):
        return astype(x, float)
    if isinstance(x, str):
        return lift(float(x))
    return lift(x)


NP.float64.__sx_type__ = np.float64
NP.float_ = NP.double = NP.float64


@model
def float32(x=0.0):
    if isinstance(x, np.ndarray):
        return astype(x, np.float32)
    return narrow(x, 24)


@model
def float16(x=0.0):
    if isinstance(x, np.ndarray):
        return astype(x, np.float16)
    return narrow(x, 11)


NP.float32.__sx_type__ = np.float32
NP.float16.__sx_type__ = np.float16


@model
def vander(*a, **k):
    raise Unsupported("vander")


class _Linalg:
    def __getattr__(self, n):
        return _wrap_real(getattr(np.linalg, n))

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord is not None and not (isinstance(ord, (int, S)) and lift(ord).e in (1, 2)):
            raise Unsupported("norm")
        if ord is not None and lift(ord).e == 1:
            return NP.sum(ew(UF["abs"], x), axis=axis, keepdims=keepdims)
        return ew(UF["sqrt"], NP.sum(ew(UF["square"], x), axis=axis, keepdims=keepdims))


NP.linalg = _Linalg()


def _finfo(dt):
    """np.finfo; the element type of symbolic arrays is float64"""
    if isinstance(dt, (S, A)):
        dt = float
    dt = getattr(dt, "__sx_type__", dt)
    if isinstance(dt, np.dtype) and dt == object:
        dt = float
    return np.finfo(dt if dt is not np.object_ else float)


NP.finfo = staticmethod(_finfo)


class _IdxTricks:
    pass


@model
def iterable(x):
    return np.iterable(x) if not isinstance(x, (S, B)) else False


@model
def result_type(*a):
    return np.dtype(float) if sym(*a) else np.result_type(*a)


@model
def issubdtype(a, b):
    return np.issubdtype(unt(a), unt(b))


@model
def dtype(x, *a, **k):
    return np.dtype(unt(x))


import z3  # noqa: E402
