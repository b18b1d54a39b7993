"""Symbolic scalars (S, B), path exploration and the symbolic context.

S is a finite real number: an exact Fraction or a z3 Real/Int term, plus an optional log part
sum_j pow_j * ln(term_j) (terms are positive on the path), so that log-domain code is exact.
Infinities and NaN are plain np.float64 values.  B is a z3 Bool.  bool(B) forks the path.
"""
import math
import subprocess
import time
from fractions import Fraction

import numpy as np
import z3

F0, F1 = Fraction(0), Fraction(1)
INF = np.float64("inf")
NAN = np.float64("nan")
TRUE, FALSE = np.bool_(True), np.bool_(False)


class PathAbort(BaseException):
    """Path abandoned (infeasible assumption, budget)."""


class Unsupported(PathAbort):
    """The code did something the encoding has no model for."""


class Budget(PathAbort):
    pass


_cur = [None]


def ctx():
    return _cur[0]


# --------------------------------------------------------------------------------------------------
# floats -> exact rationals
_frac_cache = {}


def frac_of_float(f):
    """A finite float literal/constant read as the real number it was written for: the simplest p/q
    (q<=10^4) that rounds to it, otherwise its shortest decimal."""
    f = float(f)
    r = _frac_cache.get(f)
    if r is None:
        fr = Fraction(f)
        if fr.denominator == 1:
            r = fr
        else:
            c = fr.limit_denominator(10000)
            r = c if float(c) == f else Fraction(repr(f))
        _frac_cache[f] = r
    return r


def zval(x):
    """Fraction -> z3 numeral."""
    if x.denominator == 1:
        return z3.RealVal(x.numerator)
    return z3.RealVal("%d/%d" % (x.numerator, x.denominator))


def is_num(x):
    return isinstance(x, (S, int, float, np.number, Fraction, B, bool, np.bool_))


def lift(x):
    """number -> S (finite) or np.float64 inf/nan; None if not a number."""
    if type(x) is S:
        return x
    if isinstance(x, B):
        return x.num()
    if isinstance(x, (bool, np.bool_)):
        return S(F1 if x else F0)
    if isinstance(x, (int, np.integer)):
        return S(Fraction(int(x)))
    if isinstance(x, (float, np.floating)):
        if math.isfinite(x):
            return S(frac_of_float(x))
        return np.float64(x)
    if isinstance(x, Fraction):
        return S(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x[()])
    return None


def lift_conc(x):
    """like lift, but keeps structure for deciding sortedness of ints."""
    return lift(x)


def _isint(e):
    return isinstance(e, Fraction) and e.denominator == 1 or (not isinstance(e, Fraction) and e.sort().kind() == z3.Z3_INT_SORT)


def _z(e, want_int=False):
    if isinstance(e, Fraction):
        if want_int:
            return z3.IntVal(e.numerator)
        return zval(e)
    if want_int:
        return e
    if e.sort().kind() == z3.Z3_INT_SORT:
        return z3.ToReal(e)
    return e


def _bin(a, b, op):
    """a, b: Fraction or z3; op in '+-*'. Keeps Int sort when both are ints."""
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b if op == "+" else a - b if op == "-" else a * b
    if op == "+":
        if isinstance(a, Fraction) and a == 0:
            return b
        if isinstance(b, Fraction) and b == 0:
            return a
    elif op == "-":
        if isinstance(b, Fraction) and b == 0:
            return a
        if not isinstance(a, Fraction) and not isinstance(b, Fraction) and a.eq(b):
            return F0
    else:
        for u, v in ((a, b), (b, a)):
            if isinstance(u, Fraction):
                if u == 0:
                    return F0
                if u == 1:
                    return v
    ka = a if isinstance(a, Fraction) else a.get_id()
    kb = b if isinstance(b, Fraction) else b.get_id()
    k = (op, type(a) is Fraction, type(b) is Fraction, ka, kb)
    r = _memo.get(k)
    if r is not None:
        return r[0]
    ii = _isint(a) and _isint(b)
    za, zb = _z(a, ii), _z(b, ii)
    r = za + zb if op == "+" else za - zb if op == "-" else za * zb
    if len(_memo) > 200000:
        _memo.clear()
    _memo[k] = (r, a, b)  # keeps the operands alive, so their ids stay valid
    return r


_memo = {}


class S:
    __slots__ = ("e", "lf")
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1
    nbytes = 8
    itemsize = 8

    def __init__(self, e, lf=None):
        self.e = e
        self.lf = lf or None  # dict: ast id -> (z3 term > 0, Fraction power)

    # ---- helpers
    @property
    def const(self):
        return isinstance(self.e, Fraction) and self.lf is None

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def z(self):
        """z3 Real term (log part collapsed to LN variables)."""
        p = self.plain()
        return _z(p.e)

    def plain(self):
        if self.lf is None:
            return self
        e = self.e
        for t, p in self.lf.values():
            e = _bin(e, _bin(p, ctx().ln_var(t), "*"), "+")
        return S(e)

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, copy=True):
        from .npshim import cast_scalar

        return cast_scalar(self, dt)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return 0

    def __repr__(self):
        if self.const:
            try:
                f = float(self.e)
            except OverflowError:
                return "S(%s)" % self.e
            return repr(f) if Fraction(f) == self.e else "S(%s)" % self.e
        return "S(%s%s)" % (self.e, "" if self.lf is None else " + " + " + ".join("%s*ln(%s)" % (p, t) for t, p in self.lf.values()))

    def __str__(self):
        if not self.const and self.lf is None:
            from .decshim import ph_char, ph_known

            if ph_known(self.e):
                return ph_char(self.e)
        return repr(self)

    def __format__(self, spec):
        if self.const and spec:
            return format(float(self.e), spec)
        s = str(self)
        return s if len(s) == 1 or self.const else "<sym>"

    # ---- concretisation
    def __float__(self):
        if self.const:
            return float(self.e)
        raise Unsupported("float() of a symbolic value")

    def __index__(self):
        return self.__int__()

    def __int__(self):
        if self.const:
            return int(self.e)
        p = self.plain()
        if _isint(p.e):
            return ctx().concretize_int(p.e)
        t = z3.If(p.e >= 0, z3.ToInt(p.e), -z3.ToInt(-p.e))
        return ctx().concretize_int(t)

    __trunc__ = __int__

    def __floor__(self):
        return int(s_floor(self))

    def __ceil__(self):
        return int(s_ceil(self))

    def __round__(self, nd=None):
        r = s_rint(self, nd or 0)
        return int(r) if nd is None else r

    def is_integer(self):
        return bool(s_floor(self) == self)

    def __bool__(self):
        return bool(self != 0)

    # ---- arithmetic
    def _arr(self, o):
        return isinstance(o, np.ndarray) and o.ndim > 0

    def _binop(self, o, f, rev=False):
        if self._arr(o):
            from .npshim import ew

            return ew(f, o, self) if rev else ew(f, self, o)
        lo = lift(o)
        if lo is None:
            return NotImplemented
        return f(lo, self) if rev else f(self, lo)

    def __add__(self, o):
        return self._binop(o, s_add)

    def __radd__(self, o):
        return self._binop(o, s_add, True)

    def __sub__(self, o):
        return self._binop(o, s_sub)

    def __rsub__(self, o):
        return self._binop(o, s_sub, True)

    def __mul__(self, o):
        return self._binop(o, s_mul)

    def __rmul__(self, o):
        return self._binop(o, s_mul, True)

    def __truediv__(self, o):
        return self._binop(o, s_div)

    def __rtruediv__(self, o):
        return self._binop(o, s_div, True)

    def __floordiv__(self, o):
        return self._binop(o, s_floordiv)

    def __rfloordiv__(self, o):
        return self._binop(o, s_floordiv, True)

    def __mod__(self, o):
        return self._binop(o, s_mod)

    def __rmod__(self, o):
        return self._binop(o, s_mod, True)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o, m=None):
        return self._binop(o, s_pow)

    def __rpow__(self, o):
        return self._binop(o, s_pow, True)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # ---- comparison
    def __lt__(self, o):
        return self._binop(o, s_lt)

    def __le__(self, o):
        return self._binop(o, s_le)

    def __gt__(self, o):
        return self._binop(o, s_gt)

    def __ge__(self, o):
        return self._binop(o, s_ge)

    def __eq__(self, o):
        if o is self:
            return TRUE
        return self._binop(o, s_eq)

    def __ne__(self, o):
        if o is self:
            return FALSE
        return self._binop(o, s_ne)

    # numpy-scalar-like reductions
    def sum(self, *a, **k):
        return self

    mean = min = max = squeeze = ravel_scalar = sum

    def all(self, *a, **k):
        return self != 0

    any = all

    def tolist(self):
        return self

    def clip(self, lo=None, hi=None):
        from .npshim import s_clip

        return s_clip(self, lo, hi)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise AttributeError("symbolic scalar has no attribute %s" % name)


class B:
    __slots__ = ("b", "_n")
    __array_ufunc__ = None
    __array_priority__ = 1000
    ndim = 0
    shape = ()
    size = 1

    def __init__(self, b):
        self.b = b
        self._n = None

    @property
    def dtype(self):
        return np.dtype(bool)

    def num(self):
        if self._n is None:
            self._n = S(z3.If(self.b, z3.IntVal(1), z3.IntVal(0)))
        return self._n

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __hash__(self):
        return 0

    def __repr__(self):
        return "B(%s)" % self.b

    def __bool__(self):
        return ctx().branch(self.b)

    def item(self):
        return self

    def all(self, *a, **k):
        return self

    any = all

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def astype(self, dt, copy=True):
        from .npshim import cast_scalar

        return cast_scalar(self, dt)

    def _lg(self, o, f):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            from .npshim import ew

            return ew(f, self, o)
        if isinstance(o, (B, bool, np.bool_)):
            return f(self, o)
        if isinstance(o, (int, np.integer)) and o in (0, 1):
            return f(self, bool(o))
        return NotImplemented

    def __and__(self, o):
        return self._lg(o, b_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._lg(o, b_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._lg(o, b_xor)

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if o is self:
            return TRUE
        if isinstance(o, (B, bool, np.bool_)):
            return b_not(b_xor(self, o))
        if isinstance(o, np.ndarray) and o.ndim > 0:
            from .npshim import ew

            return ew(lambda a, b: a == b, self, o)
        lo = lift(o)
        return NotImplemented if lo is None else self.num() == lo

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __getattr__(self, name):
        raise AttributeError("symbolic bool has no attribute %s" % name)


def _mk_b_arith(nm):
    def f(self, o):
        return getattr(self.num(), nm)(o)

    f.__name__ = nm
    return f


for _nm in "add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow lt le gt ge".split():
    setattr(B, "__%s__" % _nm, _mk_b_arith("__%s__" % _nm))
B.__neg__ = lambda self: -self.num()
B.__pos__ = lambda self: self.num()
B.__abs__ = lambda self: self.num()


# --------------------------------------------------------------------------------------------------
# booleans
def mkb(x):
    """z3 Bool -> B or np.bool_"""
    if z3.is_true(x):
        return TRUE
    if z3.is_false(x):
        return FALSE
    return B(x)


def as_b(x):
    """anything truthy -> B / np.bool_ without forking."""
    if isinstance(x, B):
        return x
    if isinstance(x, S):
        return s_ne(x, S(F0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return as_b(x[()])
    return np.bool_(bool(x))


def zb(x):
    """-> z3 Bool"""
    if isinstance(x, z3.BoolRef):
        return x
    x = as_b(x)
    return x.b if isinstance(x, B) else z3.BoolVal(bool(x))


def b_and(a, b):
    a, b = as_b(a), as_b(b)
    if not isinstance(a, B):
        return b if a else FALSE
    if not isinstance(b, B):
        return a if b else FALSE
    return B(z3.And(a.b, b.b))


def b_or(a, b):
    a, b = as_b(a), as_b(b)
    if not isinstance(a, B):
        return TRUE if a else b
    if not isinstance(b, B):
        return TRUE if b else a
    return B(z3.Or(a.b, b.b))


def b_xor(a, b):
    a, b = as_b(a), as_b(b)
    if not isinstance(a, B):
        return b_not(b) if a else b
    if not isinstance(b, B):
        return b_not(a) if b else a
    return B(z3.Xor(a.b, b.b))


def b_not(a):
    a = as_b(a)
    if not isinstance(a, B):
        return np.bool_(not a)
    if z3.is_not(a.b):
        return B(a.b.arg(0))
    return B(z3.Not(a.b))


def b_all(xs):
    r = []
    for x in xs:
        x = as_b(x)
        if not isinstance(x, B):
            if not x:
                return FALSE
        else:
            r.append(x.b)
    if not r:
        return TRUE
    return B(z3.And(r)) if len(r) > 1 else B(r[0])


def b_any(xs):
    return b_not(b_all([b_not(x) for x in xs]))


# --------------------------------------------------------------------------------------------------
# arithmetic on lifted values (S or np.float64 non-finite)
def nf(x):
    return not isinstance(x, S)


def _lf_add(a, b, sgn=1):
    if a is None and b is None:
        return None
    r = dict(a or {})
    for k, (t, p) in (b or {}).items():
        p = p * sgn
        if k in r:
            q = r[k][1] + p
            if q == 0:
                del r[k]
            else:
                r[k] = (t, q)
        else:
            r[k] = (t, p)
    return r or None


def s_add(a, b):
    if nf(a) or nf(b):
        return np.float64(_nfv(a) + _nfv(b))
    return S(_bin(a.e, b.e, "+"), _lf_add(a.lf, b.lf))


def s_sub(a, b):
    if nf(a) or nf(b):
        return np.float64(_nfv(a) - _nfv(b))
    if a is b:
        return S(F0)
    return S(_bin(a.e, b.e, "-"), _lf_add(a.lf, b.lf, -1))


def _nfv(x):
    """float value used when the other operand is non-finite (finite ones may be any finite number)."""
    return float(x) if nf(x) else 0.0


def s_neg(a):
    if nf(a):
        return np.float64(-a)
    return s_sub(S(F0), a) if not isinstance(a.e, Fraction) or a.lf else S(-a.e)


def s_mul(a, b):
    if nf(a) or nf(b):
        if nf(a) and nf(b):
            return np.float64(float(a) * float(b))
        x, y = (a, b) if nf(a) else (b, a)
        if np.isnan(x):
            return NAN
        if bool(s_eq(y, S(F0))):
            return NAN
        return np.float64(x) if bool(s_gt(y, S(F0))) else np.float64(-x)
    if a.lf is not None or b.lf is not None:
        for u, v in ((a, b), (b, a)):
            if u.const:
                if u.e == 0:
                    return S(F0)
                return S(_bin(u.e, v.e, "*"), {k: (t, p * u.e) for k, (t, p) in (v.lf or {}).items()})
        a, b = a.plain(), b.plain()
    return S(_bin(a.e, b.e, "*"))


def s_div(a, b):
    if nf(b):
        if nf(a) or np.isnan(b):
            return NAN
        return S(F0)
    if b.const:
        if b.e == 0:
            return _div0(a)
        if nf(a):
            return np.float64(a) if b.e > 0 else np.float64(-a)
        return s_mul(a, S(1 / b.e))
    b = b.plain()
    if bool(s_eq(b, S(F0))):
        return _div0(a)
    if nf(a):
        if np.isnan(a):
            return NAN
        return np.float64(a) if bool(s_gt(b, S(F0))) else np.float64(-a)
    a = a.plain()
    if isinstance(a.e, Fraction) and a.e == 0:
        return S(F0)
    if not isinstance(a.e, Fraction) and a.e.eq(b.e):
        return S(F1)
    return S(_z(a.e) / _z(b.e))


def _div0(a):
    if nf(a):
        return np.float64(a)
    if bool(s_eq(a, S(F0))):
        return NAN
    return INF if bool(s_gt(a, S(F0))) else np.float64(-INF)


def s_floor(a):
    if nf(a):
        return a
    a = a.plain()
    if a.const:
        return S(Fraction(math.floor(a.e)))
    if _isint(a.e):
        return a
    return S(z3.ToInt(a.e))


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_rint(a, nd=0):
    """round half to even at nd decimals"""
    if nf(a):
        return a
    sc = S(Fraction(10) ** nd)
    a = s_mul(a, sc).plain()
    if a.const:
        r = S(Fraction(round(a.e)))
    elif _isint(a.e):
        r = a
    else:
        fl = z3.ToInt(a.e)
        fr = a.e - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        r = S(z3.If(fr < half, fl, z3.If(fr > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
    return s_div(r, sc)


def s_floordiv(a, b):
    return s_floor(s_div(a, b))


def s_mod(a, b):
    if nf(a) or nf(b):
        return NAN
    if _isint(a.e) and b.const and b.e.denominator == 1 and not a.const and a.lf is None:
        m = z3.IntVal(b.e.numerator)
        if b.e > 0:
            return S(a.e % m)
    return s_sub(a, s_mul(b, s_floordiv(a, b)))


def s_pow(a, b):
    if nf(b):
        raise Unsupported("pow with non-finite exponent")
    if b.const and b.e.denominator == 1:
        n = b.e.numerator
        if nf(a):
            with np.errstate(all="ignore"):
                return np.float64(a) ** n
        if n == 0:
            return S(F1)
        if a.const and (a.e != 0 or n > 0):
            return S(a.e**n)
        r = None
        p = a.plain()
        for _ in range(abs(n)):
            r = p if r is None else s_mul(r, p)
        return r if n > 0 else s_div(S(F1), r)
    if b.const and b.e.denominator == 2:
        return s_pow(s_sqrt(a), S(Fraction(b.e.numerator)))
    if nf(a):
        raise Unsupported("pow of non-finite base")
    if b.const and bool(s_eq(a, S(F0))):
        return S(F0) if b.e > 0 else INF
    return s_exp(s_mul(b, s_log(a)))


def s_abs(a):
    if nf(a):
        return np.float64(abs(a))
    a = a.plain() if a.lf else a
    if a.const:
        return S(abs(a.e))
    ii = _isint(a.e)
    return S(z3.If(a.e >= 0, a.e, -a.e))


def s_sign(a):
    if nf(a):
        return np.float64(np.sign(a))
    z = a.plain()
    if z.const:
        return S(Fraction((z.e > 0) - (z.e < 0)))
    return S(z3.If(z.e > 0, z3.IntVal(1), z3.If(z.e < 0, z3.IntVal(-1), z3.IntVal(0))))


def _cmp_terms(a, b):
    """(za, zb) of plain comparable z3 terms / Fractions for a ? b"""
    if a.lf is None and b.lf is None:
        return a.e, b.e
    d = s_sub(a, b)
    if d.lf is None:
        return d.e, F0
    # e + sum pow ln(t) ? 0   with e constant 0: compare products
    if isinstance(d.e, Fraction):
        den = 1
        for t, p in d.lf.values():
            den = den * p.denominator // math.gcd(den, p.denominator)
        pw = [(t, int(p * den)) for t, p in d.lf.values()]
        if d.e == 0:
            g = 0
            for _, n in pw:
                g = math.gcd(g, n)
            pw = [(t, n // g) for t, n in pw]
        if d.e == 0 and sum(abs(n) for _, n in pw) <= 6:
            l = r = F1
            for t, n in pw:
                for _ in range(abs(n)):
                    if n > 0:
                        l = _bin(l, t, "*")
                    else:
                        r = _bin(r, t, "*")
            return l, r
        if d.e != 0 and len(pw) == 1 and den == 1 and pw[0][1] in (1, -1):
            # ln(t)*s + e ? 0  <=>  t ? exp(-e/s)
            t, n = pw[0]
            v = s_exp(S(-d.e / n))
            if isinstance(v, S):
                return (t, v.plain().e) if n == 1 else (v.plain().e, t)
    return d.plain().e, F0


def s_lt(a, b):
    if nf(a) or nf(b):
        if (nf(a) and np.isnan(a)) or (nf(b) and np.isnan(b)):
            return FALSE
        return np.bool_(_nfv(a) < _nfv(b))
    if a is b:
        return FALSE
    x, y = _cmp_terms(a, b)
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return np.bool_(x < y)
    ii = _isint(x) and _isint(y)
    if not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y):
        return FALSE
    return B(_z(x, ii) < _z(y, ii))


def s_le(a, b):
    if nf(a) or nf(b):
        if (nf(a) and np.isnan(a)) or (nf(b) and np.isnan(b)):
            return FALSE
        return np.bool_(_nfv(a) <= _nfv(b))
    if a is b:
        return TRUE
    x, y = _cmp_terms(a, b)
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return np.bool_(x <= y)
    if not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y):
        return TRUE
    ii = _isint(x) and _isint(y)
    return B(_z(x, ii) <= _z(y, ii))


def s_gt(a, b):
    return s_lt(b, a)


def s_ge(a, b):
    return s_le(b, a)


def s_eq(a, b):
    if nf(a) or nf(b):
        return np.bool_(nf(a) and nf(b) and float(a) == float(b))
    if a is b:
        return TRUE
    x, y = _cmp_terms(a, b)
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return np.bool_(x == y)
    if not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y):
        return TRUE
    ii = _isint(x) and _isint(y)
    if not ii and (_isint(x) or _isint(y)):
        for u, v in ((x, y), (y, x)):
            if not isinstance(u, Fraction) and _isint(u) and isinstance(v, Fraction) and v.denominator != 1:
                return FALSE
    return B(_z(x, ii) == _z(y, ii))


def s_ne(a, b):
    return b_not(s_eq(a, b))


def s_ite(c, a, b):
    """if c then a else b; a, b lifted. Falls back to forking when one side is non-finite."""
    c = as_b(c)
    if not isinstance(c, B):
        return a if c else b
    if nf(a) or nf(b):
        if nf(a) and nf(b) and (float(a) == float(b) or (np.isnan(a) and np.isnan(b))):
            return a
        return a if bool(c) else b
    if a is b:
        return a
    if a.lf is not None or b.lf is not None:
        return a if bool(c) else b
    if isinstance(a.e, Fraction) and isinstance(b.e, Fraction) and a.e == b.e:
        return a
    if not isinstance(a.e, Fraction) and not isinstance(b.e, Fraction) and a.e.eq(b.e):
        return a
    ii = _isint(a.e) and _isint(b.e)
    return S(z3.If(c.b, _z(a.e, ii), _z(b.e, ii)))


def s_max(a, b):  # np.maximum: NaN propagates
    if nf(a) or nf(b):
        if nf(a) and (np.isnan(a) or float(a) == math.inf):
            return NAN if np.isnan(a) or (nf(b) and np.isnan(b)) else a
        if nf(b) and (np.isnan(b) or float(b) == math.inf):
            return b
        return b if nf(a) else a
    if a.lf or b.lf:
        return a if bool(s_ge(a, b)) else b
    return s_ite(s_ge(a, b), a, b)


def s_min(a, b):
    if nf(a) or nf(b):
        return s_neg(s_max(s_neg(a), s_neg(b)))
    if a.lf or b.lf:
        return a if bool(s_le(a, b)) else b
    return s_ite(s_le(a, b), a, b)


def s_fmax(a, b):
    if nf(a) and np.isnan(a):
        return b
    if nf(b) and np.isnan(b):
        return a
    return s_max(a, b)


def s_fmin(a, b):
    if nf(a) and np.isnan(a):
        return b
    if nf(b) and np.isnan(b):
        return a
    return s_min(a, b)


def s_sqrt(a):
    if nf(a):
        return a if float(a) > 0 else NAN
    a = a.plain()
    if a.const:
        if a.e < 0:
            return NAN
        n, d = math.isqrt(a.e.numerator), math.isqrt(a.e.denominator)
        if n * n == a.e.numerator and d * d == a.e.denominator:
            return S(Fraction(n, d))
    elif bool(s_lt(a, S(F0))):
        return NAN
    known = ctx().__dict__.get("sqrt_of")
    if known and not a.const:
        r = known.get(ctx().tid(z3.simplify(a.z())))
        if r is not None:
            return r[1]
    return S(ctx().sqrt_var(a.e))


def s_exp(a):
    if nf(a):
        return NAN if np.isnan(a) else (INF if a > 0 else S(F0))
    r = F1
    if isinstance(a.e, Fraction):
        if a.e > 709:
            return INF
        if a.e < -740:
            return S(F0)
    if not (isinstance(a.e, Fraction) and a.e == 0):
        r = ctx().exp_var(a.e)
    if a.lf:
        for t, p in a.lf.values():
            r = _bin(r, ctx().pow_term(t, p), "*")
    out = S(r)
    ctx().note_exp(out, a)
    return out


def s_log(a):
    if nf(a):
        return NAN if np.isnan(a) or a < 0 else INF
    if a.const:
        if a.e == 0:
            return np.float64(-INF)
        if a.e < 0:
            return NAN
        if a.e == 1:
            return S(F0)
        t = zval(a.e)
        return S(F0, {ctx().tid(t): (t, F1)})
    back = ctx().find_exp(a)
    if back is not None:
        return back
    a = a.plain()
    if bool(s_gt(a, S(F0))):
        t = _z(a.e)
        return S(F0, {ctx().tid(t): (t, F1)})
    if bool(s_eq(a, S(F0))):
        return np.float64(-INF)
    return NAN


# --------------------------------------------------------------------------------------------------
# path context
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0
        self.paths = 0
        self.obl = 0
        self.obl_triv = 0
        self.obl_ok = 0
        self.obl_inconclusive = 0
        self.cross = [0, 0, 0]  # asked, agree, disagree
        self.cross_s = 0.0
        self.strong = 0


class SymCtx:
    """State of one path execution."""

    concrete = False

    def __init__(self, prefix, stats, opts):
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("q_ms", 1500))
        self.asserts = []
        self.model = None
        self.known = {}
        self.keep = []
        self.inputs = {}  # name -> ('real'|'int'|'bool'|'pick', term or python value)
        self.draw_args = []
        self.draws = []  # recorded nondeterministic draws (kind, object)
        self.lnv, self.expv, self.sqv, self.powv = {}, {}, {}, {}
        self.expback = {}
        self.fresh_n = 0
        self.aborted = None
        self.cands = []  # candidate violations (label, model dict)
        self.inconclusive = []
        self.deadline = opts.get("deadline")
        self.feas_unknown = 0
        self.fps = {}
        self.on_cand = opts.get("on_cand")

    # ---- naming
    def fresh(self, base, sort="real"):
        self.fresh_n += 1
        n = "%s!%d" % (base, self.fresh_n)
        return z3.Int(n) if sort == "int" else z3.Bool(n) if sort == "bool" else z3.Real(n)

    def tid(self, t):
        self.keep.append(t)
        return t.get_id()

    # ---- solver
    def add(self, c):
        if z3.is_true(c):
            return
        self.asserts.append(c)
        self.solver.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _time(self):
        if self.deadline and time.time() > self.deadline:
            self.abort(Budget("time budget"))

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def query(self, extra, strong=False):
        """'sat' (sets self.qmodel) / 'unsat' / 'unknown' for path condition AND extra."""
        self._time()
        t0 = time.time()
        self.stats.queries += 1
        self.qmodel = None
        try:
            r = self.solver.check(extra)
            if r == z3.sat:
                self.qmodel = self.solver.model()
            elif r == z3.unknown:
                if strong:  # the same solver with more time first
                    self.solver.set("timeout", 5 * self.opts.get("q_ms", 1500))
                    r = self.solver.check(extra)
                    if r == z3.sat:
                        self.qmodel = self.solver.model()
                    self.solver.set("timeout", self.opts.get("q_ms", 1500))
                if r == z3.unknown:
                    r = self._fallback(extra, strong)
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        if strong and r == z3.unsat and self.opts.get("cross"):
            self._cross(extra)
        return str(r)

    def _cross(self, extra):
        """a sample of the obligations z3 discharged is asked of cvc5 as well (thorough tier)"""
        st = self.stats
        st.strong += 1
        if st.cross[0] >= self.opts["cross"] or st.cross_s > self.opts.get("cross_s", 60) or st.strong & (st.strong - 1) and st.strong % 16:
            return
        t0 = time.time()
        st.cross[0] += 1
        w = self._cvc5(extra, 8000)
        st.cross_s += time.time() - t0
        if w == "unsat":
            st.cross[1] += 1
        elif w == "sat":
            st.cross[2] += 1
            self._incon("cross-check", "cvc5 finds a model where z3 says unsat")

    def _cvc5(self, extra, ms):
        s = z3.Solver()
        for a in self.asserts:
            s.add(a)
        s.add(extra)
        try:
            out = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % ms, "-"], input="(set-logic ALL)\n" + s.to_smt2(), capture_output=True, text=True, timeout=ms / 1000 + 12).stdout
        except (OSError, subprocess.TimeoutExpired):
            return "unknown"
        w = [l for l in out.split() if l in ("sat", "unsat", "unknown")]
        return w[0] if w else "unknown"

    def _fallback(self, extra, strong):
        ms = self.opts.get("fb_ms", 4000) * (3 if strong else 1)
        nra = lambda: z3.SolverFor("QF_NRA")
        steps = [(nra, ms, None), (lambda: z3.SolverFor("QF_NIRA"), ms, None), (lambda: z3.Then("simplify", "solve-eqs", "smt").solver(), ms, None)]
        if strong:  # the time such queries take varies a lot with the seed
            steps = [(nra, ms // 4, None)] + [(z3.Solver, ms // 4, i) for i in (1, 2, 3)] + [(nra, ms // 4, i) for i in (1, 2)] + steps
        for mk, lim, seed in steps:
            s = mk()
            s.set("timeout", lim)
            if seed is not None:
                try:
                    s.set("random_seed", seed)
                except z3.Z3Exception:
                    pass
            for a in self.asserts:
                s.add(a)
            s.add(extra)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.sat:
                self.qmodel = s.model()
                return r
            if r == z3.unsat:
                return r
        return z3.unsat if strong and self._cvc5(extra, 8000) == "unsat" else z3.unknown

    # ---- forking
    def branch(self, c):
        if self.aborted is not None:
            raise self.aborted
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = z3.is_not(c)
        base = c.arg(0) if neg else c
        k = base.get_id()
        if k in self.known:
            v = self.known[k]
            return (not v) if neg else v
        sc = z3.simplify(base)
        if z3.is_true(sc) or z3.is_false(sc):
            v = z3.is_true(sc)
            return (not v) if neg else v
        k2 = sc.get_id()
        self.keep.append(sc)
        if k2 in self.known:
            v = self.known[k2]
            self.known[k] = v
            self.keep.append(base)
            return (not v) if neg else v
        v = self._decide(sc)
        self.known[k] = self.known[k2] = v
        self.keep.append(base)
        return (not v) if neg else v

    def _decide(self, c):
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind in ("b", "f"), "non-deterministic replay"
            self.trace.append((kind, val))
            if kind == "b":
                self.add(c if val else z3.Not(c))
            return val
        self._time()
        # which sides are feasible?
        can = {}
        if self.model is not None:
            try:
                v = self.model.eval(c, model_completion=True)
                if z3.is_true(v):
                    can[True] = True
                elif z3.is_false(v):
                    can[False] = True
            except z3.Z3Exception:
                pass
        mods = {}
        for side in (True, False):
            if side in can:
                continue
            if side is False and can.get(True) is False:
                # other side infeasible: this one must be (path condition is satisfiable)
                can[False] = True
                continue
            r = self.query(c if side else z3.Not(c))
            if r == "unknown":
                self.feas_unknown += 1
            can[side] = r != "unsat"
            if r == "sat":
                mods[side] = self.qmodel
        if can[True] and can[False]:
            self.stats.decisions += 1
            first = self.opts.get("first", True)
            self.alts.append(self.trace[:] + [("b", not first)])
            self.trace.append(("b", first))
            self.add(c if first else z3.Not(c))
            if self.model is None and first in mods:
                self.model = mods[first]
            return first
        v = bool(can[True])
        # implied: no need to assert
        self.trace.append(("f", v))
        return v

    def choose(self, n, what=""):
        """k-ary nondeterministic choice among range(n) without a condition."""
        if n == 1:
            return 0
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind == "c", "non-deterministic replay"
            self.trace.append((kind, val))
            return val
        self.stats.decisions += 1
        for j in range(n - 1, 0, -1):
            self.alts.append(self.trace[:] + [("c", j)])
        self.trace.append(("c", 0))
        return 0

    def concretize_int(self, t, limit=64):
        """fork over the feasible values of Int term t"""
        st = z3.simplify(t)
        if z3.is_int_value(st):
            return st.as_long()
        k = ("int", st.get_id())
        self.keep.append(st)
        if k in self.known:
            return self.known[k]
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind == "v", "non-deterministic replay"
            self.trace.append((kind, val))
        else:
            vals = []
            self.solver.push()
            while len(vals) <= limit:
                r = self.query(z3.BoolVal(True))
                if r != "sat":
                    break
                v = self.qmodel.eval(st, model_completion=True).as_long()
                vals.append(v)
                self.solver.add(st != v)
            self.solver.pop()
            if r == "unknown" or not vals or len(vals) > limit:
                self.abort(Unsupported("integer with too many values"))
            vals.sort(key=lambda v: (abs(v), v))
            for v in reversed(vals[1:]):
                self.alts.append(self.trace[:] + [("v", v)])
            self.stats.decisions += len(vals) > 1
            val = vals[0]
            self.trace.append(("v", val))
        self.add(st == val)
        self.known[k] = val
        return val

    def fork_region(self, key, term, val_of, cond_of, limit=64):
        """fork over the feasible values of an integer-valued function of `term`: val_of(number) -> int, cond_of(int) -> Bool"""
        key = ("region", key, term.get_id())
        self.keep.append(term)
        if key in self.known:
            return self.known[key]
        i = len(self.trace)
        if i < len(self.prefix):
            kind, val = self.prefix[i]
            assert kind == "v", "non-deterministic replay"
            self.trace.append((kind, val))
        else:
            vals, r = [], "sat"
            self.solver.push()
            na = len(self.asserts)
            while len(vals) <= limit:
                if not vals and self.model is not None:
                    m = self.model
                else:
                    r = self.query(z3.BoolVal(True))
                    if r != "sat":
                        break
                    m = self.qmodel
                x = model_value(m, term)
                v = val_of(Fraction(x)) if x is not None else None
                if v is None:
                    r = "unknown"
                    break
                vals.append(v)
                c = z3.Not(cond_of(v))
                self.solver.add(c)
                self.asserts.append(c)
            self.solver.pop()
            del self.asserts[na:]
            if r == "unknown" or not vals or len(vals) > limit or len(set(vals)) != len(vals):
                self.abort(Unsupported("number with too many regions"))
            vals.sort(key=lambda v: (abs(v), v))
            for v in reversed(vals[1:]):
                self.alts.append(self.trace[:] + [("v", v)])
            self.stats.decisions += len(vals) > 1
            val = vals[0]
            self.trace.append(("v", val))
        self.add(cond_of(val))
        self.known[key] = val
        return val

    # ---- functions of reals
    def _const_bounds(self, v, f, slack):
        lo, hi = Fraction(f) - Fraction(slack), Fraction(f) + Fraction(slack)
        self.add(z3.And(v >= zval(lo), v <= zval(hi)))

    def ln_var(self, t):
        st = z3.simplify(t)
        k = self.tid(st)
        if k in self.lnv:
            return self.lnv[k][1]
        v = self.fresh("ln")
        self.add(z3.And((st < 1) == (v < 0), (st > 1) == (v > 0), v <= st - 1))
        if z3.is_rational_value(st):
            f = math.log(st.as_fraction())
            self._const_bounds(v, f, 1e-14 * (1 + abs(f)))
        for st2, v2 in self.lnv.values():
            self.add(z3.And((st < st2) == (v < v2), (st > st2) == (v > v2)))
        for s2, u2 in self.expv.values():
            self._link(s2, u2, st, v)
        self.lnv[k] = (st, v)
        return v

    def _link(self, s, u, t, v):
        """u = exp(s), v = ln(t)"""
        self.add(z3.And((u < t) == (s < v), (u > t) == (s > v), (u * t < 1) == (s + v < 0), (u * t > 1) == (s + v > 0)))

    def exp_var(self, e):
        z = _z(e)
        st = z3.simplify(z)
        k = self.tid(st)
        if k in self.expv:
            return self.expv[k][1]
        for tt, vv in self.lnv.values():
            if vv.eq(st):
                return tt
        u = self.fresh("exp")
        self.add(z3.And(u > 0, u >= 1 + st, (st < 0) == (u < 1), (st > 0) == (u > 1)))
        if z3.is_rational_value(st):
            f = math.exp(st.as_fraction())
            self._const_bounds(u, f, 1e-14 * f)
        for st2, u2 in self.expv.values():
            self.add(z3.And((st < st2) == (u < u2), (st > st2) == (u > u2)))
        for t2, v2 in self.lnv.values():
            self._link(st, u, t2, v2)
        self.expv[k] = (st, u)
        return u

    def sqrt_var(self, e):
        z = _z(e)
        st = z3.simplify(z)
        k = self.tid(st)
        if k in self.sqv:
            return self.sqv[k][1]
        s = self.fresh("sqrt")
        self.add(z3.And(s >= 0, s * s == st))
        if z3.is_rational_value(st):
            f = math.sqrt(st.as_fraction())
            self._const_bounds(s, f, 1e-14 * (1 + f))
        self.sqv[k] = (st, s)
        return s

    def pow_term(self, t, p):
        """positive term t to rational power p"""
        n = p.numerator
        if p.denominator == 1:
            base = t
        elif p.denominator == 2:
            base = self.sqrt_var(t)
        else:
            k = (self.tid(t), p.denominator)
            base = self.powv.get(k)
            if base is None:
                base = self.fresh("root")
                prod = base
                for _ in range(p.denominator - 1):
                    prod = prod * base
                self.add(z3.And(base > 0, prod == t))
                self.powv[k] = base
        r = F1
        for _ in range(abs(n)):
            r = _bin(r, base, "*")
        return r if n > 0 else (F1 / r if isinstance(r, Fraction) else z3.RealVal(1) / r)

    def note_exp(self, out, a):
        if not isinstance(out.e, Fraction):
            self.expback[self.tid(out.e)] = (out.e, a)

    def find_exp(self, a):
        if a.lf is not None or isinstance(a.e, Fraction):
            return None
        r = self.expback.get(a.e.get_id())
        return r[1] if r else None

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.inputs:
            raise AssertionError("duplicate input " + name)
        v = z3.Real(name)
        self.inputs[name] = ("real", v)
        if lo is not None:
            l = zval(frac_of_float(lo))
            self.add(v > l if lo_open else v >= l)
        if hi is not None:
            h = zval(frac_of_float(hi))
            self.add(v < h if hi_open else v <= h)
        return S(v)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = ("int", v)
        if lo is not None:
            self.add(v >= lo)
        if hi is not None:
            self.add(v <= hi)
        return S(v)

    def boolean(self, name):
        v = z3.Bool(name)
        self.inputs[name] = ("bool", v)
        return B(v)

    def pick(self, name, options):
        options = list(options)
        j = self.choose(len(options), name)
        self.inputs[name] = ("pick", j)
        return options[j]

    def flag(self, name):
        return self.pick(name, [False, True])

    def assume(self, c):
        c = as_b(c)
        if not isinstance(c, B):
            if not c:
                self.abort(PathAbort("assumption false"))
            return
        i = len(self.trace)
        if i < len(self.prefix) or self.model is not None and z3.is_true(self.model.eval(c.b, model_completion=True)):
            self.add(c.b)
            return
        self.add(c.b)
        r = self.query(z3.BoolVal(True))
        if r == "unsat":
            self.abort(PathAbort("assumption infeasible"))
        if r == "sat":
            self.model = self.qmodel

    # ---- obligations
    def nice(self):
        """soft constraints making models replayable in floats"""
        cs = []
        for n, (k, v) in self.inputs.items():
            if k == "real":
                cs.append(z3.And(v <= 64, v >= -64))
        return cs

    def find_model(self, goal):
        """sat? prefers small dyadic inputs. returns (status, model)"""
        r = self.query(z3.And(goal, *self.nice()))
        if r == "sat":
            m = self.qmodel
            for den in self.opts.get("dy_den", (16,)):
                ks = []
                for n, (k, v) in self.inputs.items():
                    if k == "real":
                        iv = z3.Int("nice_" + n)
                        ks.append(v * den == z3.ToReal(iv))
                if not (ks and self.opts.get("dyadic", True)):
                    break
                self.solver.set("timeout", 400)
                try:
                    t0 = time.time()
                    sat = self.solver.check(z3.And(goal, *self.nice(), *ks)) == z3.sat
                    self.stats.solver_s += time.time() - t0
                    if sat:
                        m = self.solver.model()
                        break
                finally:
                    self.solver.set("timeout", self.opts.get("q_ms", 1500))
            return "sat", m
        r = self.query(goal, strong=True)
        return r, self.qmodel

    def check(self, c, label):
        self.stats.obl += 1
        c = as_b(c)
        if not isinstance(c, B):
            if c:
                self.stats.obl_triv += 1
                self.stats.obl_ok += 1
                return True
            return self._violated(label, z3.BoolVal(True))
        sc = z3.simplify(c.b)
        if z3.is_true(sc):
            self.stats.obl_triv += 1
            self.stats.obl_ok += 1
            return True
        r = self.query(z3.Not(sc), strong=True)
        if r == "unsat":
            self.stats.obl_ok += 1
            return True
        if r == "unknown":
            if not self._generic(label, z3.Not(sc)):
                self._incon(label, "solver unknown")
            return False
        return self._violated(label, z3.Not(sc))

    def _incon(self, label, why):
        self.stats.obl_inconclusive += 1
        self.inconclusive.append((label, why))

    def _violated(self, label, goal, margins=()):
        """candidate: find models (stronger goals first), replay each on the real code"""
        tries, blocked, seen_sat, unk = 0, [], False, False
        for g in list(margins) + [goal]:
            for _ in range(3):
                r, m = self.find_model(z3.And(g, *blocked) if blocked else g)
                if r != "sat":
                    unk = unk or (r == "unknown")
                    break
                seen_sat = True
                vals = self.extract(m)
                tries += 1
                st = self.on_cand(label, vals) if self.on_cand else "fail"
                if st == "fail":
                    self.cands.append((label, vals))
                    return False
                diff = []
                for n, (k, v) in self.inputs.items():
                    if k == "real":
                        x = zval(Fraction(vals[n]))
                        diff.append(z3.Or(v >= x + z3.RealVal("1/4"), v <= x - z3.RealVal("1/4")))
                    elif k == "int":
                        diff.append(v != vals[n])
                    elif k == "bool":
                        diff.append(v != vals[n])
                if not diff or tries >= 6:
                    break
                blocked.append(z3.Or(diff))
            if tries >= 6:
                break
        if not seen_sat and not unk:
            self.stats.obl_ok += 1
            return True
        if self._generic(label, goal):
            return False
        self._incon(label, "counterexample does not reproduce on the real code" if seen_sat else "solver unknown (counterexample)")
        return False

    def _generic(self, label, goal, n=8):
        """models near pseudo-random dyadic points (moderate sizes), for candidates whose first models do not replay"""
        import random

        reals = [(nm, v) for nm, (k, v) in self.inputs.items() if k == "real"]
        if not reals or not self.on_cand:
            return False
        rng = random.Random("%s %d" % (label, len(reals)))
        t_end = time.time() + 8
        self.solver.set("timeout", 500)
        try:
            for it in range(n):
                pins = []
                for nm, v in reals:
                    r = zval(Fraction(rng.randrange(-48, 49), 16) if it % 2 == 0 else Fraction(rng.randrange(1, 64), 64))
                    pins.append((v, r))
                got = None
                for cs in ([v == r for v, r in pins], None):
                    if time.time() > t_end:
                        return False
                    if cs is None:  # greedily, the ones that can be
                        cs = []
                        for v, r in pins[:24]:
                            if time.time() > t_end:
                                return False
                            if self.solver.check(z3.And(goal, v == r, *cs)) == z3.sat:
                                cs.append(v == r)
                                got = self.solver.model()
                    elif self.solver.check(z3.And(goal, *cs)) == z3.sat:
                        got = self.solver.model()
                        break
                if got is None:
                    continue
                vals = self.extract(got)
                if self.on_cand(label, vals) == "fail":
                    self.cands.append((label, vals))
                    return True
        finally:
            self.solver.set("timeout", self.opts.get("q_ms", 1500))
        return False

    def fail(self, label):
        return self.check(FALSE, label)

    def eq(self, a, b, label, tol=1e-9):
        """a == b (numbers, NaN equal to NaN), exactly or within tol in real arithmetic"""
        self.stats.obl += 1
        a, b = lift(a), lift(b)
        if a is None or b is None:
            return self._violated(label + " (not a number)", z3.BoolVal(True))
        if nf(a) or nf(b):
            if nf(a) and nf(b) and (float(a) == float(b) or (np.isnan(a) and np.isnan(b))):
                self.stats.obl_ok += 1
                self.stats.obl_triv += 1
                return True
            return self._violated(label, z3.BoolVal(True))
        d = s_sub(a, b)
        if d.const and d.e == 0:
            self.stats.obl_ok += 1
            self.stats.obl_triv += 1
            return True
        if d.lf is not None:
            e = s_eq(d, S(F0))  # products of powers, exact
            if not isinstance(e, B):
                r = "unsat" if e else "sat"
            else:
                r = self.query(z3.Not(e.b), strong=False)
            if r == "unsat":
                self.stats.obl_ok += 1
                return True
        dz = z3.simplify(d.z(), som=True)
        if z3.is_rational_value(dz) and dz.as_fraction() == 0:
            self.stats.obl_ok += 1
            self.stats.obl_triv += 1
            return True
        r = self.query(dz != 0, strong=False)
        if r == "unsat":
            self.stats.obl_ok += 1
            return True
        bz = b.z()

        def far(t):
            t = zval(frac_of_float(t))
            lim = t * (1 + z3.If(bz >= 0, bz, -bz))
            return z3.Or(dz > lim, dz < -lim)

        r = self.query(far(tol), strong=True)
        if r == "unsat":
            self.stats.obl_ok += 1
            return True
        if r == "unknown":
            if not self._generic(label, far(1e-3)) and not self._generic(label, far(tol), 4):
                self._incon(label, "solver unknown")
            return False
        return self._violated(label, far(tol), [far(t) for t in (0.5, 0.05, 1e-3, 1e-5)])

    def eqs(self, a, b, label, tol=1e-9):
        a, b = list(a), list(b)
        if len(a) != len(b):
            return self.fail(label + " length %d != %d" % (len(a), len(b)))
        ok = True
        for i, (x, y) in enumerate(zip(a, b)):
            ok = self.eq(x, y, "%s[%d]" % (label, i), tol) and ok
        return ok

    # ---- models
    def extract(self, m):
        out = {}
        for n, (k, v) in self.inputs.items():
            if k == "pick":
                out[n] = v
            else:
                out[n] = model_value(m, v)
        out["__draws__"] = [(k, _ev_obj(m, o)) for k, o in self.draws]
        return out

    def witness(self):
        """a concrete input that follows this path"""
        r, m = self.find_model(z3.BoolVal(True))
        return self.extract(m) if r == "sat" else None

    def record_draw(self, kind, obj, *args):
        self.draws.append((kind, obj))
        self.draw_args.append((kind, args, obj))


def model_value(m, v):
    x = m.eval(v, model_completion=True)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return x.as_fraction()
    if z3.is_algebraic_value(x):
        return x.approx(30).as_fraction()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return Fraction(0)


def _ev_obj(m, o):
    if isinstance(o, np.ndarray):
        return [_ev_obj(m, q) for q in o]
    if isinstance(o, (list, tuple)):
        return [_ev_obj(m, q) for q in o]
    if isinstance(o, S):
        if o.const:
            return o.e
        return model_value(m, o.plain().e)
    if isinstance(o, B):
        return bool(model_value(m, o.b))
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    return o
