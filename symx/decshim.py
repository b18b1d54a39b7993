"""decimal stand-in: Dec is sign * coefficient * 10**exponent with a z3 Int coefficient (exponent and sign are
concrete on a path), or the exact value of a symbolic float.  Digit strings are real Python strings in which an
unknown digit is a private-use character that stands for an Int term in 0..9."""
import decimal as D
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import core as C
from .core import S, B, Unsupported, lift

T10 = [10**i for i in range(60)]


def p10(n):
    return T10[n] if n < 60 else 10**n


def q10(n):
    return Fraction(10) ** n


# ------------------------------------------------------------------------------------- digits as characters
def ph_char(t):
    """character standing for the Int term t in 0..9"""
    t = z3.simplify(t) if not z3.is_int_value(t) else t
    if z3.is_int_value(t):
        return str(t.as_long())
    c = C.ctx()
    tab = c.__dict__.setdefault("ph_tab", {})
    k = t.get_id()
    if k not in tab:
        i = len(tab)
        tab[k] = chr(0xE000 + i if i < 6000 else 0xF0000 + i)
        c.__dict__.setdefault("ph_rev", {})[tab[k]] = t
        c.keep.append(t)
    return tab[k]


def ph_known(t):
    c = C.ctx()
    return c is not None and t.get_id() in c.__dict__.get("ph_tab", ())


def ph_term(ch):
    c = C.ctx()
    t = c.__dict__.get("ph_rev", {}).get(ch)
    if t is not None:
        return t
    return z3.IntVal(int(ch)) if ch in "0123456789" else None


def str_eq_term(a, b):
    """bool or z3 Bool: the strings are equal for the digits they stand for"""
    if len(a) != len(b):
        return False
    cs = []
    for x, y in zip(a, b):
        if x == y:
            continue
        tx, ty = ph_term(x), ph_term(y)
        if tx is None or ty is None or z3.is_int_value(tx) and z3.is_int_value(ty):
            return False
        cs.append(tx == ty)
    return z3.And(*cs) if cs else True


def dchar(d):
    return str(d) if isinstance(d, int) else ph_char(d)


# ------------------------------------------------------------------------------------- rounding
def _round_cond(mode, neg, q, exact, gt, eq):
    """z3 Bool: does rounding q + frac (frac described by exact/gt half/eq half) add one to |q|"""
    if mode == D.ROUND_UP:
        return z3.Not(exact)
    if mode == D.ROUND_DOWN:
        return z3.BoolVal(False)
    if mode == D.ROUND_CEILING:
        return z3.BoolVal(False) if neg else z3.Not(exact)
    if mode == D.ROUND_FLOOR:
        return z3.Not(exact) if neg else z3.BoolVal(False)
    if mode == D.ROUND_HALF_UP:
        return z3.Or(gt, eq)
    if mode == D.ROUND_HALF_DOWN:
        return gt
    if mode == D.ROUND_HALF_EVEN:
        return z3.Or(gt, z3.And(eq, q % 2 == 1))
    if mode == D.ROUND_05UP:
        return z3.And(z3.Not(exact), q % 5 == 0)
    raise TypeError("invalid rounding mode")


def _bump(q, cond):
    cond = z3.simplify(cond)
    if z3.is_false(cond):
        return q
    if z3.is_true(cond):
        return q + 1
    c = C.ctx()
    r = c.fresh("rq", "int")
    c.add(z3.Or(z3.And(cond, r == q + 1), z3.And(z3.Not(cond), r == q)))
    return r


def _floor_of(y):
    """Int floor of the real term y >= 0 (fresh variable, linear)"""
    c = C.ctx()
    cache = c.__dict__.setdefault("dec_floor", {})
    k = y.get_id()
    if k not in cache:
        q = c.fresh("fl", "int")
        c.add(z3.And(z3.ToReal(q) <= y, y < z3.ToReal(q) + 1, q >= 0))
        cache[k] = q
        c.keep.append(y)
    return cache[k]


def _round_real(x, e, neg, mode):
    """coefficient of |x| rounded to exponent e"""
    y = z3.simplify(_zr(x) * C.zval(q10(-e)))
    q = _floor_of(y)
    f = y - z3.ToReal(q)
    return _bump(q, _round_cond(mode, neg, q, f == 0, f > z3.RealVal("1/2"), f == z3.RealVal("1/2")))


def _split(co, d):
    """co = q * 10^d + r"""
    c = C.ctx()
    cache = c.__dict__.setdefault("dec_split", {})
    k = (co.get_id(), d)
    if k not in cache:
        q, r = c.fresh("dq", "int"), c.fresh("dr", "int")
        c.add(z3.And(co == q * p10(d) + r, r >= 0, r < p10(d), q >= 0))
        cache[k] = (q, r)
        c.keep.append(co)
    return cache[k]


def _round_int(co, d, neg, mode):
    """co / 10^d rounded"""
    q, r = _split(co, d)
    return _bump(q, _round_cond(mode, neg, q, r == 0, 2 * r > p10(d), 2 * r == p10(d)))


def _zr(x):
    return x.z()


def _br(c):
    return C.ctx().branch(c)


def _adj_of(v):
    if v <= 0:
        return None
    k = len(str(v.numerator)) - len(str(v.denominator))
    while q10(k) > v:
        k -= 1
    while q10(k + 1) <= v:
        k += 1
    return k


class Dec(D.Decimal):
    def __new__(cls, value="0", context=None):
        if isinstance(value, Dec):
            return value
        if isinstance(value, B):
            value = value.num()
        if isinstance(value, S):
            if value.const:
                e = value.e
                return cls._conc(D.Decimal(int(e)) if e.denominator == 1 else D.Decimal(float(e)))
            return cls._real(value.plain())
        if isinstance(value, np.generic):
            value = value.item()
        if isinstance(value, (tuple, list)) and len(value) == 3:
            sg, dg, ex = value
            dg = tuple(dg)
            if any(isinstance(d, S) and not d.const for d in dg):
                co = z3.IntVal(0)
                for d in dg:
                    co = co * 10 + C._z(lift(d).e, True)
                r = cls._sym(bool(int(sg)), z3.simplify(co), int(ex))
                r.__dict__["_co_digits"] = None
                return r
            value = D.DecimalTuple(int(sg), tuple(int(d) for d in dg), ex)
        return cls._conc(D.Decimal(value) if context is None else D.Decimal(value, context))

    @classmethod
    def _conc(cls, d):
        o = D.Decimal.__new__(cls, d)
        o.cv, o.x = d, None
        t = d.as_tuple()
        o.neg = bool(t.sign)
        if isinstance(t.exponent, int):
            o.sp, o.ex = None, t.exponent
            o.co = int("".join(map(str, t.digits)) or "0")
        else:
            o.sp, o.ex, o.co = ("F" if t.exponent == "F" else "n"), t.exponent, 0
        return o

    @classmethod
    def _sym(cls, neg, co, ex, dg=None):
        if isinstance(co, int) or z3.is_int_value(co):
            n = co if isinstance(co, int) else co.as_long()
            return cls._conc(D.Decimal((int(neg), tuple(int(c) for c in str(n)), ex)))
        o = D.Decimal.__new__(cls, "0")
        o.cv, o.x, o.sp, o.neg, o.co, o.ex = None, None, None, bool(neg), co, int(ex)
        c = C.ctx()
        c.keep.append(co)
        if dg is not None:
            c.__dict__.setdefault("dec_digits", {})[co.get_id()] = list(dg)
        return o

    @classmethod
    def _real(cls, x):
        """the exact value of a float"""
        if bool(C.s_eq(x, S(C.F0))):
            return cls._conc(D.Decimal(0))
        neg = bool(C.s_lt(x, S(C.F0)))
        o = D.Decimal.__new__(cls, "0")
        o.cv, o.sp, o.neg, o.co, o.ex = None, None, neg, None, None
        o.x = C.s_neg(x) if neg else x
        return o

    from_float = classmethod(lambda cls, f: cls(f))

    # ---- structure
    def settle(self):
        """exact representation of a float: Decimal(0.5) has exponent -1, integers exponent 0"""
        if self.x is None:
            return self
        for m in range(0, C.ctx().opts.get("dec_m", 8)):
            y = z3.simplify(_zr(self.x) * C.zval(q10(m)))
            q = _floor_of(y)
            if _br(y == z3.ToReal(q)):
                self.co, self.ex, self.x = q, -m, None
                return self
        C.ctx().abort(Unsupported("digits of an arbitrary float"))

    def digits(self):
        if self.sp:
            return [0] if self.sp == "F" else []
        self.settle()
        if self.cv is not None:
            return [int(d) for d in self.cv.as_tuple().digits] or [0]
        c = C.ctx()
        tab = c.__dict__.setdefault("dec_digits", {})
        k = self.co.get_id()
        if k not in tab:
            co = self.co
            n = c.fork_region("nd", co, lambda v: len(str(int(v))), lambda n: z3.And(co < p10(n), co >= (p10(n - 1) if n > 1 else 0)))
            ds = [c.fresh("dg", "int") for _ in range(n)]
            c.add(z3.And(*[z3.And(d >= 0, d <= 9) for d in ds]))
            if n > 1:
                c.add(ds[0] >= 1)
            c.add(self.co == z3.Sum([d * p10(n - 1 - i) for i, d in enumerate(ds)]))
            tab[k] = ds
        return tab[k]

    def val(self):
        """S or np.float64 inf/nan"""
        if self.sp:
            return C.NAN if self.sp == "n" else np.float64(-C.INF if self.neg else C.INF)
        if self.cv is not None:
            return S(Fraction(self.cv))
        v = self.x if self.x is not None else C.s_mul(S(self.co), S(q10(self.ex)))
        return C.s_neg(v) if self.neg else v

    def __sx_float__(self):
        """up to 15 digits the conversion is treated as exact (it keeps order and equality); beyond, it rounds"""
        v = self.val()
        if self.sp or self.x is not None:
            return v
        if self.cv is not None:
            return v if len(self.cv.as_tuple().digits) <= 15 else S(Fraction(float(self.cv)))
        c = C.ctx()
        if _br(self.co < p10(15)):
            return v
        f = c.fresh("rnd")
        e = v.e
        a = z3.If(e >= 0, e, -e) * C.zval(Fraction(1, 2 ** 53))
        c.add(z3.And(f - e <= a, e - f <= a))
        return S(f)

    def _is_zero(self):
        if self.sp or self.x is not None:
            return False
        if self.cv is not None:
            return self.cv.is_zero()
        return C.mkb(self.co == 0)

    # ---- predicates
    def is_finite(self):
        return self.sp is None

    def is_nan(self):
        return self.sp == "n"

    def is_qnan(self):
        return self.sp == "n"

    def is_snan(self):
        return False

    def is_infinite(self):
        return self.sp == "F"

    def is_zero(self):
        return self._is_zero()

    def is_signed(self):
        return self.neg

    def __bool__(self):
        return not bool(self._is_zero())

    def as_tuple(self):
        if self.cv is not None:
            return self.cv.as_tuple()
        self.settle()
        for d in self.digits():
            dchar(d)  # makes str() of the digit its character
        return D.DecimalTuple(int(self.neg), tuple(d if isinstance(d, int) else S(d) for d in self.digits()), self.ex)

    def adjusted(self):
        if self.cv is not None:
            return self.cv.adjusted()
        if self.x is not None:
            return self._adj_real()
        return self.ex + len(self.digits()) - 1

    def _adj_real(self):
        """k with 10^k <= |x| < 10^(k+1)"""
        x = _zr(self.x)
        return C.ctx().fork_region("adj", x, _adj_of, lambda k: z3.And(x >= C.zval(q10(k)), x < C.zval(q10(k + 1))))

    # ---- context operations
    def _plus(self, ctx):
        """round to the context precision"""
        if self.cv is not None:
            return Dec._conc(ctx.plus(self.cv) if not isinstance(ctx, Ctx) else D.Context.plus(ctx, self.cv))
        prec, mode = ctx.prec, ctx.rounding
        if self.x is not None:
            k = self._adj_real()
            for m in range(0, prec - k):
                y = z3.simplify(_zr(self.x) * C.zval(q10(m)))
                if k + m + 1 < 1:
                    continue
                q = _floor_of(y)
                if _br(y == z3.ToReal(q)):
                    return Dec._sym(self.neg, q, -m)
            e = k - prec + 1
            co = _round_real(self.x, e, self.neg, mode)
        else:
            if prec >= 60 or not _br(self.co >= p10(prec)):
                return self
            n = len(self.digits())
            d = n - prec
            e = self.ex + d
            co = _round_int(self.co, d, self.neg, mode)
        if _br(co == p10(prec)):
            co, e = z3.IntVal(p10(prec - 1)), e + 1
        return Dec._sym(self.neg, co, e)

    def quantize(self, exp, rounding=None, context=None):
        ctx = context or D.getcontext()
        exp = Dec(exp)
        mode = rounding or ctx.rounding
        if self.sp or exp.sp or self.cv is not None and exp.cv is not None:
            a = self.cv if self.cv is not None else D.Decimal(1)
            b = exp.cv if exp.cv is not None else D.Decimal(1)
            return Dec._conc(a.quantize(b, rounding=rounding, context=_plain_ctx(ctx)))
        exp.settle()
        e = exp.ex
        if self.x is not None:
            co = _round_real(self.x, e, self.neg, mode)
        else:
            sco = self.co if not isinstance(self.co, int) else z3.IntVal(self.co)
            co = z3.simplify(sco * p10(self.ex - e)) if self.ex >= e else _round_int(sco, e - self.ex, self.neg, mode)
        if ctx.prec < 200 and _br(co >= p10(ctx.prec)):
            raise D.InvalidOperation([D.InvalidOperation])
        return Dec._sym(self.neg, co, e)

    def to_integral_value(self, rounding=None, context=None):
        if self.cv is not None:
            return Dec._conc(self.cv.to_integral_value(rounding, _plain_ctx(context) if context else None))
        if self.x is None and self.ex >= 0:
            return self
        return self.quantize(Dec(1), rounding or (context or D.getcontext()).rounding, D.Context(prec=2000))

    to_integral = to_integral_value

    def scaleb(self, other, context=None):
        ctx = context or D.getcontext()
        if isinstance(other, (S,)):
            other = int(other)
        if self.cv is not None:
            o = other.cv if isinstance(other, Dec) else other
            return Dec._conc(self.cv.scaleb(o, _plain_ctx(ctx)))
        n = int(other)
        self.settle()
        return Dec._sym(self.neg, self.co, self.ex + n)._plus(ctx)

    def normalize(self, context=None):
        if self.cv is not None:
            return Dec._conc(self.cv.normalize())
        r = self._plus(context or D.getcontext())
        ds = r.digits()
        if bool(r._is_zero()):
            return Dec._conc(D.Decimal((int(r.neg), (0,), 0)))
        k = 0
        while k < len(ds) - 1 and (ds[-1 - k] == 0 if isinstance(ds[-1 - k], int) else _br(ds[-1 - k] == 0)):
            k += 1
        return Dec._sym(r.neg, _round_int(r.co, k, r.neg, D.ROUND_DOWN) if k else r.co, r.ex + k)

    def copy_abs(self):
        return self._signed(False)

    def copy_negate(self):
        return self._signed(not self.neg)

    def copy_sign(self, o, context=None):
        return self._signed(Dec(o).neg)

    def _signed(self, neg):
        if self.cv is not None:
            return Dec._conc(self.cv.copy_abs() if not neg else self.cv.copy_abs().copy_negate())
        if self.x is not None:
            o = D.Decimal.__new__(Dec, "0")
            o.cv, o.sp, o.co, o.ex, o.x, o.neg = None, None, None, None, self.x, neg
            return o
        return Dec._sym(neg, self.co, self.ex)

    def __pos__(self):
        return self._plus(D.getcontext())

    def __neg__(self):
        if self.cv is not None:
            return Dec._conc(-self.cv)
        return self._signed(not self.neg)._plus(D.getcontext())

    def __abs__(self):
        if self.cv is not None:
            return Dec._conc(abs(self.cv))
        return self._signed(False)._plus(D.getcontext())

    # ---- arithmetic
    def _arith(self, o, op, ctx=None):
        if isinstance(o, (float, np.floating, S)) or not isinstance(o, (int, D.Decimal)):
            return NotImplemented
        o = Dec(o)
        ctx = ctx or D.getcontext()
        if self.cv is not None and o.cv is not None:
            return Dec._conc(getattr(_plain_ctx(ctx), {"+": "add", "-": "subtract", "*": "multiply", "/": "divide"}[op])(self.cv, o.cv))
        if self.sp or o.sp or op == "/":
            a, b = self, o
            if op != "/":
                dummy = lambda d: d.cv if d.cv is not None else D.Decimal(-1 if d.neg else 1)
                return Dec._conc(getattr(_plain_ctx(ctx), {"+": "add", "-": "subtract", "*": "multiply"}[op])(dummy(a), dummy(b)))
            if op == "/" and o.cv is not None and not o.sp and not o.cv.is_zero() and set(o.cv.as_tuple().digits[1:]) <= {0} and o.cv.as_tuple().digits[0] == 1:
                return Dec._sym(self.neg != o.neg, self.settle().co, self.ex - o.cv.adjusted())._plus(ctx)
            C.ctx().abort(Unsupported("decimal division"))
        self.settle(), o.settle()
        ca, cb = [v if not isinstance(v, int) else z3.IntVal(v) for v in (self.co, o.co)]
        if op == "*":
            return Dec._sym(self.neg != o.neg, z3.simplify(ca * cb), self.ex + o.ex)._plus(ctx)
        e = min(self.ex, o.ex)
        a = ca * p10(self.ex - e) * (-1 if self.neg else 1)
        b = cb * p10(o.ex - e) * (-1 if o.neg else 1) * (-1 if op == "-" else 1)
        t = z3.simplify(a + b)
        if _br(t == 0):
            return Dec._conc(D.Decimal((0, (0,), e)))
        neg = _br(t < 0)
        return Dec._sym(neg, z3.simplify(-t) if neg else t, e)._plus(ctx)

    def __add__(self, o):
        return self._arith(o, "+")

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, "-")

    def __rsub__(self, o):
        return Dec(o)._arith(self, "-") if isinstance(o, (int, D.Decimal)) else NotImplemented

    def __mul__(self, o):
        return self._arith(o, "*")

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._arith(o, "/")

    def __rtruediv__(self, o):
        return Dec(o)._arith(self, "/") if isinstance(o, (int, D.Decimal)) else NotImplemented

    # ---- comparisons
    def _cmp(self, o, f, order):
        if isinstance(o, D.Decimal):
            o = Dec(o)
            if order and (self.sp == "n" or o.sp == "n"):
                raise D.InvalidOperation([D.InvalidOperation])
            b = o.val()
        elif isinstance(o, (S, B, int, float, np.generic, Fraction)):
            b = lift(o)
            if order and (self.sp == "n" or C.nf(b) and np.isnan(b)):
                raise D.InvalidOperation([D.InvalidOperation])
        else:
            return NotImplemented
        return f(self.val(), b)

    def __lt__(self, o):
        return self._cmp(o, C.s_lt, True)

    def __le__(self, o):
        return self._cmp(o, C.s_le, True)

    def __gt__(self, o):
        return self._cmp(o, C.s_gt, True)

    def __ge__(self, o):
        return self._cmp(o, C.s_ge, True)

    def __eq__(self, o):
        if o is self:
            return self.sp != "n"
        return self._cmp(o, C.s_eq, False)

    def __ne__(self, o):
        if o is self:
            return self.sp == "n"
        r = self._cmp(o, C.s_eq, False)
        return r if r is NotImplemented else C.b_not(r)

    def compare(self, o, context=None):
        o = Dec(o)
        if self.sp == "n" or o.sp == "n":
            return Dec("NaN")
        a, b = self.val(), o.val()
        return Dec(-1 if bool(C.s_lt(a, b)) else 0 if bool(C.s_eq(a, b)) else 1)

    def max(self, o, context=None):
        o = Dec(o)
        if self.sp == "n":
            return o
        return self if o.sp == "n" or bool(C.s_ge(self.val(), o.val())) else o

    def min(self, o, context=None):
        o = Dec(o)
        if self.sp == "n":
            return o
        return self if o.sp == "n" or bool(C.s_le(self.val(), o.val())) else o

    def __hash__(self):
        return 0

    # ---- text
    def _plain(self):
        """(sign, integer digits, fraction digits) as characters"""
        ds = [dchar(d) for d in self.digits()]
        if self.ex > 0:
            ip, fp = ds + ["0"] * self.ex, []
            if bool(self._is_zero()):
                ip = ["0"]
        else:
            n = -self.ex
            ds = ["0"] * (n + 1 - len(ds)) + ds
            ip, fp = ds[: len(ds) - n], ds[len(ds) - n :]
        return ip, fp

    def __format__(self, spec, context=None, **k):
        if self.cv is not None:
            return format(self.cv, spec)
        import re

        m = re.fullmatch(r"(,?)(?:\.(\d+))?([fF]?)", spec)
        if m is None or not m.group(3) and (m.group(2) or m.group(1)):
            C.ctx().abort(Unsupported("decimal format %r" % spec))
        if not m.group(3):
            return str(self)
        d = self
        if m.group(2) is not None:
            d = self.quantize(Dec._conc(D.Decimal((0, (1,), -int(m.group(2))))), context=D.Context(prec=2000, rounding=D.getcontext().rounding))
            if d.cv is not None:
                return format(d.cv, spec)
        d.settle()
        ip, fp = d._plain()
        s = "".join(ip)
        if m.group(1):
            g = []
            while len(s) > 3:
                g.insert(0, s[-3:])
                s = s[:-3]
            s = ",".join([s] + g)
        return ("-" if d.neg else "") + s + ("." + "".join(fp) if fp else "")

    def __str__(self):
        if self.cv is not None:
            return str(self.cv)
        ds = [dchar(d) for d in self.digits()]
        left = self.ex + len(ds)
        sg = "-" if self.neg else ""
        if self.ex <= 0 and left > -6:
            ip, fp = self._plain()
            return sg + "".join(ip) + ("." + "".join(fp) if fp else "")
        return sg + ds[0] + ("." + "".join(ds[1:]) if len(ds) > 1 else "") + "E%+d" % (left - 1)

    to_sci = __str__

    def __repr__(self):
        if self.cv is not None:
            return repr(self.cv)
        return "Dec(<symbolic>)"

    # ---- conversions
    def __float__(self):
        if self.cv is not None:
            return float(self.cv)
        C.ctx().abort(Unsupported("float() of a symbolic decimal"))

    def __int__(self):
        if self.cv is not None:
            return int(self.cv)
        self.settle()
        t = self.co * p10(self.ex) if self.ex >= 0 else _split(self.co, -self.ex)[0]
        v = C.ctx().concretize_int(t)
        return -v if self.neg else v

    __trunc__ = __int__

    def __round__(self, n=None):
        if self.cv is not None:
            r = round(self.cv) if n is None else round(self.cv, n)
            return r if n is None else Dec._conc(r)
        q = self.quantize(Dec._conc(D.Decimal((0, (1,), -(n or 0)))), D.ROUND_HALF_EVEN, D.Context(prec=2000))
        return int(q) if n is None else q

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if self.cv is not None:
            return (D.Decimal, (str(self.cv),))
        raise Unsupported("pickle of a symbolic decimal")


def _plain_ctx(c):
    if c is None:
        return D.getcontext()
    if isinstance(c, Ctx):
        return D.Context(prec=c.prec, rounding=c.rounding, Emin=c.Emin, Emax=c.Emax, capitals=c.capitals, clamp=c.clamp, traps=[s for s, v in c.traps.items() if v])
    return c


def _mk(n):
    real = getattr(D.Decimal, n)

    def f(self, *a, **k):
        vs = [self] + [x for x in a if isinstance(x, Dec)] + [x for x in k.values() if isinstance(x, Dec)]
        if any(v.cv is None for v in vs) or any(isinstance(x, S) and not x.const for x in a):
            C.ctx().abort(Unsupported("decimal " + n))
        un = lambda x: x.cv if isinstance(x, Dec) else _plain_ctx(x) if isinstance(x, D.Context) else x
        r = real(self.cv, *[un(x) for x in a], **{q: un(x) for q, x in k.items()})
        return Dec._conc(r) if isinstance(r, D.Decimal) else r

    f.__name__ = n
    return f


_KEEP = {"__new__", "__class__", "__init__", "__getattribute__", "__setattr__", "__delattr__", "__doc__", "__dict__", "__init_subclass__", "__subclasshook__", "__sizeof__", "__dir__", "__reduce_ex__", "__getstate__"}
for _n in dir(D.Decimal):
    if _n not in _KEEP and _n not in Dec.__dict__ and callable(getattr(D.Decimal, _n)):
        setattr(Dec, _n, _mk(_n))
for _n, _g in (("real", lambda s: s), ("imag", lambda s: Dec(0))):
    setattr(Dec, _n, property(_g))


# ------------------------------------------------------------------------------------- contexts
class Ctx(D.Context):
    def create_decimal(self, num="0"):
        return Dec(num)._plus(self)

    def create_decimal_from_float(self, f):
        return Dec(f)._plus(self)

    def plus(self, x):
        return Dec(x)._plus(self)

    def minus(self, x):
        x = Dec(x)
        return x._signed(not x.neg)._plus(self)

    def abs(self, x):
        return Dec(x)._signed(False)._plus(self)

    def quantize(self, a, b):
        return Dec(a).quantize(b, context=self)

    def scaleb(self, a, b):
        return Dec(a).scaleb(b, context=self)

    def add(self, a, b):
        return Dec(a)._arith(b, "+", self)

    def subtract(self, a, b):
        return Dec(a)._arith(b, "-", self)

    def multiply(self, a, b):
        return Dec(a)._arith(b, "*", self)

    def divide(self, a, b):
        return Dec(a)._arith(b, "/", self)

    def to_integral_value(self, a):
        return Dec(a).to_integral_value(context=self)

    def normalize(self, a):
        return Dec(a).normalize(self)

    def copy(self):
        return _to_ctx(self)

    __copy__ = copy


def _to_ctx(c):
    return Ctx(prec=c.prec, rounding=c.rounding, Emin=c.Emin, Emax=c.Emax, capitals=c.capitals, clamp=c.clamp, traps=[s for s, v in c.traps.items() if v])


class localcontext:
    def __init__(self, ctx=None, **kw):
        self.new = _to_ctx(ctx or D.getcontext())
        for k, v in kw.items():
            setattr(self.new, k, v)

    def __enter__(self):
        self.saved = D.getcontext()
        D.setcontext(self.new)
        return self.new

    def __exit__(self, *a):
        D.setcontext(self.saved)


def _module():
    m = types.ModuleType("decimal")
    m.__dict__.update({k: v for k, v in vars(D).items() if not k.startswith("__")})
    m.Decimal, m.Context, m.localcontext = Dec, Ctx, localcontext
    return m


MODULE = _module()
