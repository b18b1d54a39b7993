"""Executes the current source of /repo/mlpaper with shimmed numpy/scipy/pandas/decimal/math."""
import ast
import builtins
import hashlib
import math
import os
import types
from fractions import Fraction

import numpy as np

from . import core as C
from .core import S, B, Unsupported, lift
from .npshim import NP, A, concrete_index, has_sym

REPO = os.environ.get("SYMX_REPO", "/repo")  # the checks run on /repo; development runs may name a copy
_code_cache = {}
SRC_FILES = {}


class _T(ast.NodeTransformer):
    def visit_Constant(self, n):
        if isinstance(n.value, float) and math.isfinite(n.value):
            return ast.copy_location(ast.Call(ast.Name("__sx_c__", ast.Load()), [ast.Constant(repr(n.value))], []), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Mod)):
            f = "__sx_div__" if isinstance(n.op, ast.Div) else "__sx_mod__"
            return ast.copy_location(ast.Call(ast.Name(f, ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        sl = n.slice
        if isinstance(n.value, ast.Attribute) and n.value.attr in ("r_", "c_", "s_", "mgrid", "ogrid"):
            return n

        def wrap(x):
            if isinstance(x, (ast.Slice, ast.Constant, ast.Starred)):
                return x
            if isinstance(x, ast.Tuple):
                x.elts = [wrap(q) for q in x.elts]
                return x
            return ast.copy_location(ast.Call(ast.Name("__sx_ix__", ast.Load()), [x], []), x)

        n.slice = wrap(sl)
        return n

    def visit_Match(self, n):
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n


def sx_c(txt):
    return S(Fraction(txt))


def sx_div(a, b):
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)) and not isinstance(a, bool):
        if int(b) == 0:
            return a / b
        return S(Fraction(int(a), int(b)))
    if isinstance(a, np.ndarray) and not isinstance(a, A) or isinstance(b, np.ndarray) and not isinstance(b, A):
        if not (hasattr(a, "iloc") or hasattr(b, "iloc")):
            return NP.true_divide(a, b)
    return a / b


def _san(x):
    if isinstance(x, S):
        if x.const:
            return float(x.e)
        t = str(x)
        return t if len(t) == 1 else math.nan
    if isinstance(x, tuple):
        return tuple(_san(q) for q in x)
    return x


def sx_mod(a, b):
    if isinstance(a, str):
        return a % _san(b)
    return a % b


def sx_ix(x):
    if isinstance(x, A):
        return concrete_index(x)
    return x


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, S))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, (str, bytes)):
            f = float(x)
            return f if not math.isfinite(f) else S(Fraction(x.strip().replace("_", "")) if isinstance(x, str) else Fraction(f))
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.reshape(-1)[0]
        if hasattr(x, "__sx_float__"):
            return x.__sx_float__()
        l = lift(x)
        if l is None:
            return float(x)
        return l

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SxFloat(metaclass=_FloatMeta):
    __sx_type__ = float
    fromhex = float.fromhex


def sx_min(*args, **k):
    return _mm(builtins.min, C.s_min, args, k)


def sx_max(*args, **k):
    return _mm(builtins.max, C.s_max, args, k)


def _mm(native, f, args, k):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if k or not xs or not any(isinstance(x, (S, B)) for x in xs):
        return native(xs, **k)
    ls = [lift(x) for x in xs]
    if any(l is None or C.nf(l) for l in ls):
        return native(xs)
    r = ls[0]
    for l in ls[1:]:
        r = f(r, l)
    return r


class _Math:
    def __getattr__(self, n):
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a):
            if any(isinstance(x, (S, B, A)) for x in a):
                m = {"fabs": "abs", "pow": "power"}.get(n, n)
                g = getattr(NP, m, None)
                if n in ("floor", "ceil", "trunc"):
                    return int(g(*a))
                if n == "fsum":
                    return NP.sum(a[0])
                if n == "log" and len(a) == 2:
                    return NP.log(a[0]) / NP.log(a[1])
                if g is None:
                    raise Unsupported("math." + n)
                return g(*a)
            r = real(*a)
            return r

        return f

    @staticmethod
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        a, b = lift(a), lift(b)
        d = C.s_abs(C.s_sub(a, b))
        return bool(C.s_le(d, C.s_max(C.s_mul(lift(rel_tol), C.s_max(C.s_abs(a), C.s_abs(b))), lift(abs_tol))))


def compile_module(name, path):
    src = open(path).read()
    key = (path, hashlib.sha256(src.encode()).hexdigest())
    if key not in _code_cache:
        tree = ast.parse(src, path)
        tree = ast.fix_missing_locations(_T().visit(tree))
        _code_cache[key] = compile(tree, path, "exec", dont_inherit=True)
        SRC_FILES[path] = key[1]
    return _code_cache[key]


class World:
    """A fresh set of symbolic mlpaper modules."""

    def __init__(self):
        self.mods = {}
        from . import decshim, jlshim, pdshim, spshim

        self.ext = {
            "numpy": NP,
            "numpy.random": NP.random,
            "numpy.linalg": NP.linalg,
            "pandas": pdshim.PD,
            "math": _Math(),
            "scipy": spshim.MISC,
            "scipy.stats": spshim.SS,
            "scipy.interpolate": spshim.SI,
            "scipy.special": spshim.SPECIAL,
            "scipy.integrate": spshim.SINT,
            "decimal": decshim.MODULE,
            "joblib": jlshim.MODULE,
        }
        b = dict(vars(builtins))
        b.update(__import__=self._import, float=SxFloat, min=sx_min, max=sx_max, __sx_c__=sx_c, __sx_div__=sx_div, __sx_mod__=sx_mod, __sx_ix__=sx_ix)
        self.builtins = b

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError("no module named %s" % name)
        if "." in name:
            self.load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        try:
            exec(compile_module(name, path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__", "mlpaper")
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.partition(".")[0]
        if top == "mlpaper":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            pass
                return m
            return self.mods[top]
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            return self.ext.get(top, self.ext[name])
        if top in ("numpy", "scipy", "pandas") and fromlist:
            real = builtins.__import__(name, None, None, list(fromlist), 0)
            from .spshim import _FB

            return _FB(real)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def __getattr__(self, leaf):
        return self.load("mlpaper." + leaf)
