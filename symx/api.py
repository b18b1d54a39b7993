"""Harness API shared by the symbolic context (SymRun) and the concrete replay context (ConcRun)."""
import decimal
import importlib
import math
import sys
from fractions import Fraction

import numpy as np
import pandas as pd
import z3

from . import core as C
from .core import S, B, F0, F1, lift, SymCtx
from .npshim import NP, A, mkA, toA
from . import npshim, pdshim, decshim
from .loader import World, REPO


class Rejected(Exception):
    pass


def _layout(a, how):
    """the same array with another memory layout"""
    if not how or not isinstance(a, np.ndarray) or a.size == 0:
        return a
    if how == "F":
        return np.array(a, order="F", subok=True, copy=True)
    if how == "neg":  # negative strides
        ix = (slice(None, None, -1),) * a.ndim
        return np.array(a[ix], order="C", subok=True, copy=True)[ix]
    if how == "ro":  # read-only
        a = np.array(a, subok=True, copy=True)
        a.flags.writeable = False
        return a
    b = np.repeat(a, 2, axis=-1)  # every second element
    return b[..., ::2]


def _oframe(cls, data, index, columns):
    a = np.empty((len(data), len(columns)), dtype=object)
    for i, r in enumerate(data):
        for j, v in enumerate(r):
            a[i, j] = v
    return cls(a, index=index, columns=columns)


class SymRun(SymCtx):
    concrete = False

    def __init__(self, prefix, stats, opts):
        super().__init__(prefix, stats, opts)
        self._M = None

    @property
    def M(self):
        if self._M is None:
            self._M = World()
        return self._M

    np = NP
    pd = pdshim.PD
    inf = C.INF
    nan = C.NAN

    # ---- values
    def num(self, x):
        return lift(x)

    def arr(self, xs):
        a = toA([list(r) if isinstance(r, (list, tuple)) else r for r in xs]) if len(xs) else mkA([])
        return _layout(a, self.opts.get("layout"))

    def vec(self, name, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def frame(self, data, index=None, columns=None):
        a = np.empty((len(data), len(data[0]) if data else 0), dtype=object)
        for i, r in enumerate(data):
            for j, v in enumerate(r):
                a[i, j] = npshim.norm_el(v)
        return pdshim.SDF(a, index=index, columns=columns)

    def series(self, data, index=None):
        a = np.empty(len(data), dtype=object)
        for i, v in enumerate(data):
            a[i] = npshim.norm_el(v)
        return pdshim.SSer(a, index=index)

    def cells(self, x):
        """flat list of the elements of an array / frame / series / scalar"""
        if isinstance(x, (pd.DataFrame, pd.Series)):
            x = np.asarray(pd.DataFrame.values.fget(x) if isinstance(x, pd.DataFrame) else pd.Series.values.fget(x))
        if isinstance(x, A):
            x = x.view(np.ndarray)
        if isinstance(x, np.ndarray):
            return list(x.reshape(-1))
        if isinstance(x, (list, tuple)):
            return [q for y in x for q in self.cells(y)]
        return [x]

    # ---- operators usable in both modes
    def ite(self, c, a, b):
        return C.s_ite(C.as_b(c), lift(a), lift(b))

    def And(self, *cs):
        return C.b_all(cs)

    def Or(self, *cs):
        return C.b_any(cs)

    def Not(self, c):
        return C.b_not(c)

    def Sum(self, xs):
        r = S(F0)
        for x in xs:
            r = C.s_add(r, lift(x))
        return r

    def Prod(self, xs):
        r = S(F1)
        for x in xs:
            r = C.s_mul(r, lift(x))
        return r

    def Max(self, xs):
        xs = [lift(x) for x in xs]
        r = xs[0]
        for x in xs[1:]:
            r = C.s_max(r, x)
        return r

    def Min(self, xs):
        xs = [lift(x) for x in xs]
        r = xs[0]
        for x in xs[1:]:
            r = C.s_min(r, x)
        return r

    def Abs(self, x):
        return C.s_abs(lift(x))

    def sqrt(self, x):
        return C.s_sqrt(lift(x))

    def exp(self, x):
        return C.s_exp(lift(x))

    def log(self, x):
        return C.s_log(lift(x))

    def div(self, a, b):
        return C.s_div(lift(a), lift(b))

    def frac(self, a, b=1):
        return S(Fraction(a) / Fraction(b))

    def order(self, xs):
        """indices sorting xs (forks on the order)"""
        return npshim.sort_idx([lift(x) for x in xs])

    def eqv(self, a, b):
        return C.s_eq(lift(a), lift(b))

    def near(self, a, b):
        """a == b (concrete mode: up to rounding)"""
        return C.s_eq(lift(a), lift(b))

    def floor_int(self, x, guard=None):
        """python int floor(x) (forks)"""
        return int(C.s_floor(lift(x)))

    def ceil_int(self, x, guard=None):
        return -self.floor_int(-lift(x))

    def t_q(self, df, conf):
        from .spshim import t_q

        return t_q(df, conf)

    def t_p(self, df, t2):
        """P(T^2 > t2) for Student t"""
        from .spshim import t_tail2

        return t_tail2(df, lift(t2))

    def is_nan(self, x):
        x = lift(x)
        return x is not None and C.nf(x) and np.isnan(x)

    def is_fin(self, x):
        x = lift(x)
        return x is not None and not C.nf(x)

    # ---- obligations
    def le(self, a, b, label):
        return self._cmp(C.s_le, a, b, label)

    def lt(self, a, b, label):
        return self._cmp(C.s_lt, a, b, label)

    def _cmp(self, f, a, b, label):
        a, b = lift(a), lift(b)
        if a is None or b is None:
            return self.fail(label + " (not a number)")
        c = f(a, b)
        if not isinstance(c, B) or C.nf(a) or C.nf(b):
            return self.check(c, label)
        self.stats.obl += 1
        r = self.query(z3.Not(c.b), strong=True)
        if r == "unsat":
            self.stats.obl_ok += 1
            return True
        if r == "unknown":
            self._incon(label, "solver unknown")
            return False
        az, bz = a.z(), b.z()
        return self._violated(label, z3.Not(c.b), [az > bz + C.zval(Fraction(str(t))) for t in (0.5, 0.05, 0.001)])

    def iff_lt(self, p, q, label):
        """(p0 < p1) == (q0 < q1)"""
        return self._rel2(p, q, label, lambda a, b: z3.Xor(a, b))

    def imp_lt(self, p, q, label):
        """(p0 < p1) implies (q0 < q1)"""
        return self._rel2(p, q, label, lambda a, b: z3.And(a, z3.Not(b)))

    def _rel2(self, p, q, label, bad):
        self.stats.obl += 1
        (a, b), (x, y) = [tuple(lift(v) for v in t) for t in (p, q)]
        goal = bad(C.zb(C.s_lt(a, b)), C.zb(C.s_lt(x, y)))
        r = self.query(goal, strong=True)
        if r == "unsat":
            self.stats.obl_ok += 1
            return True
        if r == "unknown":
            self._incon(label, "solver unknown")
            return False
        ms = []
        if not any(C.nf(v) for v in (a, b, x, y)):
            for t in ("1/4", "1/100", "1/100000"):
                t = z3.RealVal(t)
                d1, d2 = a.z() - b.z(), x.z() - y.z()
                ms.append(z3.And(goal, z3.Or(d1 > t, d1 < -t), z3.Or(d2 > t, d2 < -t)))
        return self._violated(label, goal, ms)

    # ---- decimals
    def D(self, x):
        return decshim.Dec(x)

    def dec(self, name, nd, ex, neg=False, lead=1):
        """decimal with nd unknown digits (the first >= lead)"""
        ds = [self.int("%s_%d" % (name, i), lead if i == 0 else 0, 9).e for i in range(nd)]
        co = ds[0] if nd == 1 else z3.Sum([d * 10 ** (nd - 1 - i) for i, d in enumerate(ds)])
        return decshim.Dec._sym(neg, co, ex, ds)

    def dec_int(self, name, lo, hi, ex, neg=False):
        """decimal with an unknown coefficient in lo..hi"""
        return decshim.Dec._sym(neg, self.int(name, lo, hi).e, ex)

    def dec_parts(self, d):
        """('nan',) / ('inf', negative) / ('fin', negative, digits, exponent)"""
        if not isinstance(d, decshim.Dec):
            return ("not a Decimal", repr(d))
        if d.sp:
            return ("nan",) if d.sp == "n" else ("inf", d.neg)
        d.settle()
        return ("fin", d.neg, list(d.digits()), d.ex)

    def dec_val(self, d):
        return d.val()

    def dec_exp(self, d):
        """exponent of a finite decimal"""
        return d.settle().ex

    def dec_kind(self, d):
        return "?" if not isinstance(d, decshim.Dec) else {None: "fin", "n": "nan"}.get(d.sp) or ("-inf" if d.neg else "inf")

    def dchar(self, d):
        return decshim.dchar(d)

    def exact(self, x):
        return lift(x)

    def q10(self, k):
        return S(Fraction(10) ** k)

    def oframe(self, data, index=None, columns=None):
        return _oframe(pdshim.SDF, data, index, columns)

    def str_same(self, a, b, label):
        if not isinstance(a, str):
            return self.fail(label + " (not a str)")
        t = decshim.str_eq_term(a, b)
        return self.check(np.bool_(t) if isinstance(t, bool) else B(t), label)

    def text_val(self, s):
        """(value, number of decimals) of fixed point text, None if it is not that"""
        s = s.replace(",", "")
        neg = s.startswith("-")
        ip, dot, fp = s[neg:].partition(".")
        ts = [decshim.ph_term(ch) for ch in ip + fp]
        if not ip or dot and not fp or any(t is None for t in ts):
            return None
        v = S(F0)
        for t in ts:
            v = C.s_add(C.s_mul(v, S(Fraction(10))), S(Fraction(t.as_long())) if z3.is_int_value(t) else S(t))
        v = C.s_mul(v, S(Fraction(10) ** -len(fp)))
        return (C.s_neg(v) if neg else v), len(fp)

    def rejects(self, f, label):
        try:
            f()
        except Exception:
            self.stats.obl += 1
            self.stats.obl_triv += 1
            self.stats.obl_ok += 1
            return True
        return self.fail(label + ": accepted")

    def same(self, a, b, label):
        """python equality of non-numeric objects"""
        return self.check(np.bool_(bool(a == b)), label)

    def snapshot(self, x):
        """elements of an input, to check later that it was not modified"""
        return list(self.cells(x))

    def unchanged(self, x, snap, label):
        return self.eqs(self.cells(x), snap, label + " (input modified)", 0)


class WarmRun(SymRun):
    """an earlier use of the same modules with known inputs (nothing is checked): what it leaves behind must not matter to the run that follows"""

    def __init__(self, values, opts, world):
        super().__init__([], C.Stats(), dict(opts, on_cand=None))
        self._M = world
        self.vals = values

    def _get(self, name):
        if name not in self.vals:
            self.abort(C.PathAbort("no earlier value for " + name))
        return self.vals[name]

    def fresh(self, base, sort="real"):
        return super().fresh("earlier_" + base, sort)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        return S(Fraction(self._get(name)))

    def int(self, name, lo=None, hi=None):
        return S(z3.IntVal(int(self._get(name))))

    def boolean(self, name):
        return B(z3.BoolVal(bool(self._get(name))))

    def pick(self, name, options):
        options = list(options)
        j = self._get(name)
        if j >= len(options):
            self.abort(C.PathAbort("pick " + name))
        return options[j]

    def rejects(self, f, label):
        try:
            f()
        except Exception:
            pass
        return True

    def _ok(self, *a, **k):
        return True

    check = eq = eqs = le = lt = iff_lt = imp_lt = same = str_same = fail = unchanged = _ok


# --------------------------------------------------------------------------------------------------
class ConcFail(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class ConcMismatch(BaseException):
    pass


class RealMods:
    """the real package, freshly imported from /repo's working tree"""

    def __init__(self):
        for k in [k for k in sys.modules if k == "mlpaper" or k.startswith("mlpaper.")]:
            del sys.modules[k]
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        importlib.invalidate_caches()

    def __getattr__(self, leaf):
        m = importlib.import_module("mlpaper." + leaf)
        assert m.__file__.startswith(REPO + "/"), m.__file__
        return m


def _f(x):
    if isinstance(x, bool):
        return x
    if isinstance(x, Fraction):
        return float(x)
    return x


def _deep(x):
    return [_deep(q) for q in x] if isinstance(x, list) else _f(x)


class PlayRandom:
    """np.random replacement that returns the recorded draws in order"""

    KINDS = ("multinomial rand random_sample random ranf sample uniform permutation shuffle randint integers choice normal randn standard_normal RandomState default_rng seed").split()

    def __init__(self, run, draws, strict):
        self.run, self.q, self.strict = run, list(draws), strict
        self.rs = np.random.RandomState(1)

    def _pop(self, kind):
        if self.q:
            k, v = self.q.pop(0)
            if k != kind:
                raise ConcMismatch("draw kind %s != %s" % (k, kind))
            return _deep(v)
        if self.strict:
            raise ConcMismatch("no recorded draw for %s" % kind)
        return None

    def _sz(self, size):
        return () if size is None else tuple(int(s) for s in size) if isinstance(size, (tuple, list)) else (int(size),)

    def _rec(self, kind, val, *args):
        self.run.draw_args.append((kind, args, val))
        self.run.draws.append((kind, val))
        return val

    def RandomState(self, seed=None):
        return self

    default_rng = RandomState

    def seed(self, *a):
        return None

    def multinomial(self, n, pvals, size=None):
        sh = self._sz(size) + (len(pvals),)
        v = self._pop("multinomial")
        if v is None:
            v = self.rs.multinomial(n, pvals, size=size)
        v = np.array(v, dtype=int)
        if v.shape != sh:
            raise ConcMismatch("draw shape")
        self.rs.multinomial(n, pvals)  # rejects what numpy rejects
        return self._rec("multinomial", v, int(n), [float(p) for p in pvals], self._sz(size)).copy()

    def _uni(self, sh, kind):
        v = self._pop(kind)
        if v is None:
            v = self.rs.rand(*sh)
        v = np.array(v, dtype=float)
        if v.shape != sh:
            raise ConcMismatch("draw shape")
        self._rec(kind, v)
        return v.copy() if sh else float(v)

    def rand(self, *sh):
        return self._uni(tuple(int(s) for s in sh), "rand")

    def random_sample(self, size=None):
        return self._uni(self._sz(size), "random_sample")

    ranf = sample = random_sample

    def random(self, size=None):
        return self._uni(self._sz(size), "random")

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._uni(self._sz(size), "uniform01")

    def permutation(self, x):
        n = int(x) if np.ndim(x) == 0 and not hasattr(x, "__len__") else len(x)
        p = self._pop("permutation")
        if p is None:
            p = list(self.rs.permutation(n))
        if len(p) != n:
            raise ConcMismatch("perm length")
        p = np.array(p, dtype=int)
        self._rec("permutation", list(p))
        return p if not hasattr(x, "__len__") else np.asarray(x)[p]

    def shuffle(self, x):
        p = self.permutation(len(x))
        y = [x[i] for i in p]
        for i in range(len(y)):
            x[i] = y[i]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        sh = self._sz(size)
        v = self._pop("randint")
        if v is None:
            v = self.rs.randint(low, high, size=size)
        v = np.array(v, dtype=int).reshape(sh)
        self._rec("randint", v)
        return v if sh else int(v)

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        n = len(a) if hasattr(a, "__len__") else int(a)
        sh = self._sz(size)
        m = int(np.prod(sh)) if sh else 1
        v = self._pop("choice")
        if v is None:
            v = list(self.rs.choice(n, m, replace=replace))
        else:
            self.rs.choice(n, m, replace=replace)
        if len(v) != m:
            raise ConcMismatch("choice size")
        v = np.array(v, dtype=int)
        self._rec("choice", list(v), n, m, replace)
        r = np.asarray(a)[v] if hasattr(a, "__len__") else v
        return r.reshape(sh) if sh else r[0]

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = self._sz(size)
        v = self._pop("normal01")
        if v is None:
            v = self.rs.normal(size=sh)
        v = np.array(v, dtype=float).reshape(sh)
        self._rec("normal01", v)
        return loc + scale * (v if sh else float(v))

    def randn(self, *sh):
        return self.normal(size=sh if sh else None)

    standard_normal = normal

    def __enter__(self):
        self.saved = {}
        for k in self.KINDS:
            if hasattr(np.random, k) and hasattr(self, k):
                self.saved[k] = getattr(np.random, k)
                setattr(np.random, k, getattr(self, k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


class ConcRun:
    """one concrete execution of a harness on the real code; the first failed check raises ConcFail"""

    concrete = True
    np = np
    pd = pd
    inf = np.inf
    nan = np.nan
    TOL = 1e-7

    def __init__(self, values, opts=None, mods=None):
        self.values = values
        self.opts = opts or {}
        self.draws, self.draw_args = [], []
        self.checks = 0
        self._M = mods

    @property
    def M(self):
        if self._M is None:
            self._M = RealMods()
        return self._M

    def _get(self, name):
        if name not in self.values:
            raise ConcMismatch("no value for " + name)
        return self.values[name]

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = float(self._get(name))
        if lo is not None and (v < lo or lo_open and v == lo) or hi is not None and (v > hi or hi_open and v == hi):
            raise ConcMismatch("range of " + name)
        return np.float64(v)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def boolean(self, name):
        return bool(self._get(name))

    def pick(self, name, options):
        options = list(options)
        j = self._get(name)
        if j >= len(options):
            raise ConcMismatch("pick " + name)
        return options[j]

    def flag(self, name):
        return self.pick(name, [False, True])

    def assume(self, c):
        if not c:
            raise ConcMismatch("assumption")

    def num(self, x):
        return np.float64(x)

    def arr(self, xs):
        return _layout(np.array(xs, dtype=float), self.opts.get("layout"))

    def vec(self, name, n, lo=None, hi=None, **k):
        return [self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]

    def frame(self, data, index=None, columns=None):
        return pd.DataFrame(np.array(data, dtype=float).reshape(len(data), -1), index=index, columns=columns)

    def series(self, data, index=None):
        return pd.Series(np.array(data, dtype=float), index=index)

    def cells(self, x):
        if isinstance(x, (pd.DataFrame, pd.Series)):
            x = x.values
        if isinstance(x, np.ndarray):
            return list(x.reshape(-1))
        if isinstance(x, (list, tuple)):
            return [q for y in x for q in self.cells(y)]
        return [x]

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def Sum(self, xs):
        return np.float64(sum(xs)) if len(list(xs)) else np.float64(0)

    def Prod(self, xs):
        r = np.float64(1.0)
        for x in xs:
            r = r * x
        return r

    def Max(self, xs):
        return np.float64(max(xs))

    def Min(self, xs):
        return np.float64(min(xs))

    def Abs(self, x):
        return abs(x)

    def sqrt(self, x):
        return np.sqrt(x)

    def exp(self, x):
        with np.errstate(all="ignore"):
            return np.exp(np.float64(x))

    def log(self, x):
        with np.errstate(all="ignore"):
            return np.log(np.float64(x))

    def div(self, a, b):
        with np.errstate(all="ignore"):
            return np.true_divide(np.float64(a), np.float64(b))

    def frac(self, a, b=1):
        return np.float64(float(Fraction(a) / Fraction(b)))

    def order(self, xs):
        return list(np.argsort(np.array(xs, dtype=float), kind="mergesort"))

    def eqv(self, a, b):
        return bool(a == b)

    def near(self, a, b):
        return bool(a == b or math.isfinite(a) and math.isfinite(b) and abs(a - b) <= self.TOL * (1 + abs(b)))

    def floor_int(self, x, guard=None):
        r = round(float(x))
        if abs(x - r) < 1e-9 and (x != r or guard is not None and not float(guard * 1024).is_integer()):
            raise ConcMismatch("integer boundary")
        return math.floor(x)

    def ceil_int(self, x, guard=None):
        return -self.floor_int(-x, guard)

    def t_q(self, df, conf):
        import scipy.stats as ss

        return ss.t.ppf(0.5 * (1 + conf), df)

    def t_p(self, df, t2):
        import scipy.stats as ss

        return 2 * ss.t.sf(np.sqrt(t2), df)

    def is_nan(self, x):
        return bool(np.isnan(float(x)))

    def is_fin(self, x):
        return bool(np.isfinite(float(x)))

    # ---- checks
    def check(self, c, label):
        self.checks += 1
        if not bool(c):
            raise ConcFail(label)
        return True

    def fail(self, label):
        raise ConcFail(label)

    def eq(self, a, b, label, tol=None):
        self.checks += 1
        tol = self.TOL if tol is None or tol > 1e-11 else float(tol)
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            raise ConcFail(label, "not a number: %r %r" % (a, b))
        if math.isnan(a) and math.isnan(b) or a == b:
            return True
        if not (math.isfinite(a) and math.isfinite(b)) or abs(a - b) > tol * (1 + abs(b)):
            raise ConcFail(label, "got %r expected %r" % (a, b))
        return True

    def eqs(self, a, b, label, tol=None):
        a, b = list(a), list(b)
        if len(a) != len(b):
            raise ConcFail(label, "length %d != %d" % (len(a), len(b)))
        for i, (x, y) in enumerate(zip(a, b)):
            self.eq(x, y, "%s[%d]" % (label, i), tol)
        return True

    def le(self, a, b, label):
        self.checks += 1
        if not (float(a) <= float(b) + self.TOL * (1 + abs(b)) if math.isfinite(b) else float(a) <= float(b)):
            raise ConcFail(label, "%r > %r" % (a, b))
        return True

    lt = le

    def _near(self, p):
        return math.isfinite(p[0]) and math.isfinite(p[1]) and abs(p[0] - p[1]) <= self.TOL * (1 + abs(p[1]))

    def iff_lt(self, p, q, label):
        if self._near(p) or self._near(q):
            return True
        return self.check((p[0] < p[1]) == (q[0] < q[1]), label)

    def imp_lt(self, p, q, label):
        if self._near(p) or self._near(q):
            return True
        return self.check(not (p[0] < p[1]) or q[0] < q[1], label)

    # ---- decimals
    def D(self, x):
        return decimal.Decimal(x)

    def dec(self, name, nd, ex, neg=False, lead=1):
        return decimal.Decimal((int(neg), tuple(self.int("%s_%d" % (name, i)) for i in range(nd)), ex))

    def dec_int(self, name, lo, hi, ex, neg=False):
        return decimal.Decimal((int(neg), tuple(int(q) for q in str(self.int(name))), ex))

    def dec_parts(self, d):
        if not isinstance(d, decimal.Decimal):
            return ("not a Decimal", repr(d))
        if not d.is_finite():
            return ("nan",) if d.is_nan() else ("inf", d < 0)
        t = d.as_tuple()
        return ("fin", bool(t.sign), list(t.digits) or [0], t.exponent)

    def dec_exp(self, d):
        return d.as_tuple().exponent

    def dec_kind(self, d):
        return "?" if not isinstance(d, decimal.Decimal) else "nan" if d.is_nan() else "fin" if d.is_finite() else "inf" if d > 0 else "-inf"

    def dec_val(self, d):
        return Fraction(d) if d.is_finite() else float(d)

    def dchar(self, d):
        return str(d)

    def exact(self, x):
        return Fraction(float(x)) if np.isfinite(x) else x

    def q10(self, k):
        return Fraction(10) ** k

    def oframe(self, data, index=None, columns=None):
        return _oframe(pd.DataFrame, data, index, columns)

    def str_same(self, a, b, label):
        return self.same(a, b, label)

    def text_val(self, s):
        import re

        s = s.replace(",", "")
        m = re.fullmatch(r"-?\d+(?:\.(\d+))?", s)
        return None if m is None else (Fraction(s), len(m.group(1) or ""))

    def rejects(self, f, label):
        self.checks += 1
        try:
            f()
        except Exception:
            return True
        raise ConcFail(label, "accepted")

    def same(self, a, b, label):
        self.checks += 1
        if not bool(a == b):
            raise ConcFail(label, "%r != %r" % (a, b))
        return True

    snapshot = SymRun.snapshot

    def unchanged(self, x, snap, label):
        return self.eqs(self.cells(x), snap, label + " (input modified)", 0)
