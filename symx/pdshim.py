"""pandas stand-in: real pandas frames of object dtype; .values gives symbolic arrays."""
import types

import numpy as np
import pandas as pd

from .core import S, B, lift
from .npshim import A, toA, has_sym, norm_el, unt


def base(x):
    """A -> plain object ndarray (what pandas may see)"""
    if isinstance(x, A):
        return x.view(np.ndarray)
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return toA(x).view(np.ndarray)
    if isinstance(x, list):
        return [base(q) for q in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(base(q) for q in x)
    if isinstance(x, dict):
        return {k: base(v) for k, v in x.items()}
    return x


def out_values(v):
    if isinstance(v, np.ndarray) and v.dtype == object:
        if v.size and all(isinstance(q, (S, B, float, int, np.number, bool, np.bool_)) for q in v.reshape(-1)):
            if any(isinstance(q, (S, B)) for q in v.reshape(-1)) or any(isinstance(q, (float, np.floating)) for q in v.reshape(-1)):
                return toA(v.view(np.ndarray))
    if isinstance(v, np.ndarray) and v.dtype.kind == "f":
        return toA(v)
    return v


class _Loc:
    def __init__(self, real):
        self.real = real

    def __getitem__(self, k):
        return self.real[base(k)]

    def __setitem__(self, k, v):
        v = base(v)
        if isinstance(v, (pd.DataFrame, pd.Series)):
            pass
        self.real[base(k)] = v

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __call__(self, *a, **k):
        return _Loc(self.real(*a, **k))


def _fix_dtype(dtype):
    dtype = unt(dtype)
    if dtype is None:
        return None
    try:
        if np.dtype(dtype).kind == "f":
            return object
    except TypeError:
        pass
    return dtype


class SSer(pd.Series):
    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None, fastpath=False, **k):
        if isinstance(data, (A, np.ndarray, list, tuple, dict)):
            data = base(data)
        if isinstance(data, (float, S)) and not isinstance(data, bool):
            data = norm_el(data)
        kw = dict(k)
        if fastpath:
            kw["fastpath"] = fastpath
        super().__init__(data=data, index=index, dtype=_fix_dtype(dtype), name=name, copy=copy, **kw)

    @property
    def _constructor(self):
        return SSer

    @property
    def _constructor_expanddim(self):
        return SDF

    @property
    def values(self):
        return out_values(pd.Series.values.fget(self))

    def to_numpy(self, *a, **k):
        return self.values

    def unique(self):
        return out_values(np.asarray(super().unique()))

    def shift(self, periods=1, freq=None, axis=0, fill_value=np.nan, **k):
        return super().shift(periods, freq=freq, axis=axis, fill_value=np.nan if fill_value is None else fill_value, **k)

    def isin(self, values):
        return super().isin(base(values) if not isinstance(values, A) else list(values.view(np.ndarray)))

    @property
    def loc(self):
        return _Loc(pd.Series.loc.fget(self) if isinstance(pd.Series.loc, property) else super().loc)

    @property
    def iloc(self):
        return _Loc(super().iloc)

    def mean(self, *a, **k):
        from .npshim import NP

        return NP.mean(self.values)

    def std(self, axis=None, skipna=True, ddof=1, **k):
        from .npshim import NP

        return NP.std(self.values, ddof=ddof)

    def sum(self, *a, **k):
        from .npshim import NP

        v = self.values
        return NP.sum(v) if isinstance(v, A) else super().sum(*a, **k)

    def min(self, *a, **k):
        from .npshim import NP

        return NP.min(self.values)

    def max(self, *a, **k):
        from .npshim import NP

        return NP.max(self.values)


class SDF(pd.DataFrame):
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        if isinstance(data, (A, np.ndarray, list, tuple, dict)):
            data = base(data)
        super().__init__(data=data, index=index, columns=columns, dtype=_fix_dtype(dtype), copy=copy)

    @property
    def _constructor(self):
        return SDF

    @property
    def _constructor_sliced(self):
        return SSer

    @property
    def values(self):
        return out_values(pd.DataFrame.values.fget(self))

    def to_numpy(self, *a, **k):
        return self.values

    @property
    def loc(self):
        return _Loc(super().loc)

    @property
    def iloc(self):
        return _Loc(super().iloc)

    @property
    def at(self):
        return _Loc(super().at)

    @property
    def iat(self):
        return _Loc(super().iat)

    def __setitem__(self, k, v):
        super().__setitem__(k, base(v))

    def shift(self, periods=1, freq=None, axis=0, fill_value=np.nan, **k):
        return super().shift(periods, freq=freq, axis=axis, fill_value=np.nan if fill_value is None else fill_value, **k)

    def astype(self, dtype, *a, **k):
        return super().astype(_fix_dtype(dtype), *a, **k)


class PdShim:
    def __init__(self):
        self.DataFrame, self.Series = SDF, SSer
        self.__name__ = "pandas"

    def __getattr__(self, name):
        return getattr(pd, name)

    def isnull(self, x):
        if isinstance(x, (S, B)):
            return False
        return pd.isnull(base(x))

    isna = isnull

    def notnull(self, x):
        if isinstance(x, (S, B)):
            return True
        return pd.notnull(base(x))

    notna = notnull

    def unique(self, x):
        return out_values(pd.unique(base(x)))


PD = PdShim()
