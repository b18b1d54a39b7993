"""np.random stand-in: every draw is nondeterministic (any value of its documented range) and recorded,
so that a counterexample can be played back against the real code."""
import itertools
from fractions import Fraction

import numpy as np
import z3

from .core import S, B, F0, F1, Unsupported, ctx, lift, zval


class RandomShim:
    MAX_ROWS = 6

    def __init__(self):
        self._top = True

    def __getattr__(self, name):
        raise Unsupported("np.random.%s" % name)

    # -- generators behave like the module itself
    def RandomState(self, seed=None):
        return self

    def default_rng(self, seed=None):
        return self

    def seed(self, *a):
        return None

    def _size(self, size):
        if size is None:
            return ()
        if isinstance(size, (tuple, list)):
            return tuple(int(s) for s in size)
        return (int(size),)

    def multinomial(self, n, pvals, size=None):
        from .npshim import mkA, toA

        c = ctx()
        n = int(n)
        k = len(pvals)
        pv = [lift(p) for p in pvals]
        # np.random.multinomial rejects sum(pvals[:-1]) > 1; zero-probability cells never drawn
        tot = sum((p for p in pv[:-1]), S(F0))
        if bool(tot > 1 + 1e-9):
            raise ValueError("sum(pvals[:-1]) > 1.0")
        sh = self._size(size)
        rows = int(np.prod(sh)) if sh else 1
        lim = c.opts.get("boot_rows", self.MAX_ROWS)
        fixed = c.opts.get("boot_fixed")
        distinct = []
        for r in range(min(rows, lim)):
            if c.opts.get("boot_fork"):
                opts = [v for v in itertools.product(range(n + 1), repeat=k) if sum(v) == n and not any(v[j] and pv[j].const and pv[j].e == 0 for j in range(k))]
                cells = [S(Fraction(v)) for v in opts[c.choose(len(opts), "mult")]]
            elif fixed is not None:
                cells = [S(Fraction(v)) for v in fixed(r, n, k)]
            else:
                cells = []
                for j in range(k):
                    v = c.fresh("mult", "int")
                    c.add(z3.And(v >= 0, v <= n))
                    if pv[j].const and pv[j].e == 0:
                        c.add(v == 0)
                    cells.append(S(v))
                c.add(z3.Sum([q.e for q in cells]) == n)
            distinct.append(cells)
        flat = []
        for r in range(rows):
            # many rows: the first draw dominates and each other one has a share of 3%, so the usual confidences are told apart
            j = r % 33 if rows >= 100 else r
            flat += distinct[j % len(distinct) if rows < 100 else j if j < len(distinct) else 0]
        out = mkA(flat, sh + (k,))
        c.record_draw("multinomial", out, n, pv, sh)
        return out

    def _uniform(self, sh, kind):
        from .npshim import mkA

        c = ctx()
        cells = []
        for _ in range(int(np.prod(sh)) if sh else 1):
            v = c.fresh("u")
            c.add(z3.And(v >= 0, v < 1))
            cells.append(S(v))
        out = mkA(cells, sh) if sh else cells[0]
        c.record_draw(kind, out)
        return out

    def rand(self, *sh):
        return self._uniform(tuple(int(s) for s in sh), "rand")

    def random_sample(self, size=None):
        return self._uniform(self._size(size), "random_sample")

    def random(self, size=None):
        return self._uniform(self._size(size), "random")

    ranf = sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._uniform(self._size(size), "uniform01")
        return low + (high - low) * u

    def permutation(self, x):
        from .npshim import toA

        c = ctx()
        n = int(x) if isinstance(x, (int, np.integer, S)) else len(x)
        perms = list(itertools.permutations(range(n)))
        if len(perms) > 720:
            raise Unsupported("permutation of more than 6")
        p = list(perms[c.choose(len(perms), "perm")])
        c.record_draw("permutation", p)
        if isinstance(x, (int, np.integer, S)):
            return np.array(p, dtype=int)
        xa = x if isinstance(x, np.ndarray) else np.array(x) if not any(isinstance(q, (S, B)) for q in x) else toA(x)
        return xa[np.array(p, dtype=int)]

    def shuffle(self, x):
        p = self.permutation(len(x))
        y = [x[i] for i in p]
        for i in range(len(y)):
            x[i] = y[i]

    def randint(self, low, high=None, size=None, dtype=int):
        from .npshim import mkA

        c = ctx()
        if high is None:
            low, high = 0, low
        sh = self._size(size)
        cells = []
        for _ in range(int(np.prod(sh)) if sh else 1):
            cells.append(int(low) + c.choose(int(high) - int(low), "randint"))
        c.record_draw("randint", list(cells))
        return np.array(cells, dtype=int).reshape(sh) if sh else cells[0]

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        from .npshim import toA

        c = ctx()
        if p is not None:
            raise Unsupported("choice with probabilities")
        n = int(a) if isinstance(a, (int, np.integer, S)) else len(a)
        sh = self._size(size)
        m = int(np.prod(sh)) if sh else 1
        if not replace:
            if m > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            opts = list(itertools.combinations(range(n), m))
        else:
            if n == 0 and m > 0:
                raise ValueError("a cannot be empty unless no samples are taken")
            opts = list(itertools.product(range(n), repeat=m))
        if len(opts) > 1000:
            raise Unsupported("choice space too large")
        sel = list(opts[c.choose(len(opts), "choice")])
        c.record_draw("choice", sel, n, m, replace)
        if isinstance(a, (int, np.integer, S)):
            r = np.array(sel, dtype=int)
        else:
            aa = a if isinstance(a, np.ndarray) else (np.array(list(a)) if not any(isinstance(q, (S, B)) for q in a) else toA(a))
            r = aa[np.array(sel, dtype=int)]
        return r.reshape(sh) if sh else r[0]

    def normal(self, loc=0.0, scale=1.0, size=None):
        from .npshim import mkA

        c = ctx()
        sh = self._size(size)
        cells = [S(c.fresh("n")) for _ in range(int(np.prod(sh)) if sh else 1)]
        out = mkA(cells, sh) if sh else cells[0]
        c.record_draw("normal01", out)
        return loc + scale * out

    def randn(self, *sh):
        return self.normal(size=sh if sh else None)

    standard_normal = normal
