"""joblib.Memory stand-in: a cache keyed on function name and arguments (not on closures), per location."""
import copy
import types

import numpy as np

from .core import S, B, ctx, lift, TRUE
from . import core as C


def _snap(x, depth=0):
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (list, tuple)):
        return type(x)(_snap(q, depth + 1) for q in x) if type(x) in (list, tuple) else x
    if isinstance(x, dict):
        return {k: _snap(v, depth + 1) for k, v in x.items()}
    if hasattr(x, "__dict__") and not isinstance(x, (type, types.FunctionType, types.ModuleType)) and depth < 4:
        return ("obj", type(x), {k: _snap(v, depth + 1) for k, v in vars(x).items()})
    return x


def _same(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        return all(_same(x, y) for x, y in zip(a.view(np.ndarray).reshape(-1), b.view(np.ndarray).reshape(-1)))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, (S, B)) or isinstance(b, (S, B)):
        la, lb = lift(a), lift(b)
        if la is None or lb is None:
            return False
        return bool(C.s_eq(la, lb))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    return a is b or bool(a == b)


class Memory:
    def __init__(self, location=None, backend="local", mmap_mode=None, compress=False, verbose=1, backend_options=None):
        self.location = location

    def cache(self, func=None, ignore=None, verbose=None, mmap_mode=False, cache_validation_callback=None):
        if func is None:
            return lambda f: self.cache(f, ignore=ignore)
        if self.location is None:
            return func
        import inspect

        sig = inspect.signature(func)
        ig = set(ignore or ())
        c = ctx()
        store = c.__dict__.setdefault("joblib_store", {})
        entries = store.setdefault((str(self.location), func.__module__, func.__qualname__, func.__code__.co_code), [])

        def call(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            key = {n: _snap(v) for n, v in b.arguments.items() if n not in ig}
            for k2, r in entries:
                if _same(key, k2):
                    return copy.deepcopy(r)
            r = func(*a, **k)
            entries.append((key, r))
            return r

        call.__wrapped__ = func
        return call

    def clear(self, warn=True):
        pass


class MODULE:
    Memory = Memory

    def __getattr__(self, n):
        import joblib

        return getattr(joblib, n)


MODULE = MODULE()
MODULE.Memory = Memory
