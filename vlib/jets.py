"""Truncated multivariate Taylor arithmetic (exact derivatives of compositions), batched over points.  Shares no code with
automatic differentiation: a value is the array of Taylor coefficients of a function around each point."""
import itertools
from functools import lru_cache

import numpy as np


@lru_cache(None)
def table(dims, deg):
    """(list of multi-indices, index by multi-index, product triples)"""
    mi = [m for m in itertools.product(range(deg + 1), repeat=dims) if sum(m) <= deg]
    mi.sort(key=lambda m: (sum(m), m))
    ix = {m: i for i, m in enumerate(mi)}
    a, b, c = [], [], []
    for i, p in enumerate(mi):
        for j, q in enumerate(mi):
            if sum(p) + sum(q) <= deg:
                a.append(i); b.append(j); c.append(ix[tuple(x + y for x, y in zip(p, q))])
    P = np.zeros((len(a), len(mi)))
    P[np.arange(len(a)), c] = 1
    return mi, ix, np.array(a), np.array(b), P


class Jet:
    """coefficients c[point, multi-index]; `scale` is a bound on the size of what was added up (for tolerances)."""

    def __init__(self, dims, deg, c):
        self.dims, self.deg, self.c = dims, deg, c

    @classmethod
    def const(cls, v, dims, deg, n):
        c = np.zeros((n, len(table(dims, deg)[0])))
        c[:, 0] = v
        return cls(dims, deg, c)

    @classmethod
    def var(cls, i, values, dims, deg):
        values = np.asarray(values, float).ravel()
        j = cls.const(values, dims, deg, len(values))
        if deg > 0:
            j.c[:, table(dims, deg)[1][tuple(int(k == i) for k in range(dims))]] = 1
        return j

    def lift(self, o):
        return o if isinstance(o, Jet) else Jet.const(o, self.dims, self.deg, len(self.c))

    def cut(self, deg):
        """The same function to a lower order."""
        if deg == self.deg:
            return self
        mi, ix, *_ = table(self.dims, self.deg)
        return Jet(self.dims, deg, self.c[:, [ix[m] for m in table(self.dims, deg)[0]]])

    def pair(self, o):
        o = self.lift(o)
        d = min(self.deg, o.deg)
        return self.cut(d), o.cut(d)

    def __add__(self, o):
        a, b = self.pair(o)
        return Jet(a.dims, a.deg, a.c + b.c)

    def __neg__(self):
        return Jet(self.dims, self.deg, -self.c)

    def __sub__(self, o):
        a, b = self.pair(o)
        return Jet(a.dims, a.deg, a.c - b.c)

    def __mul__(self, o):
        if not isinstance(o, Jet):
            return Jet(self.dims, self.deg, self.c * o)
        a, b = self.pair(o)
        _, _, i, j, P = table(a.dims, a.deg)
        return Jet(a.dims, a.deg, (a.c[:, i] * b.c[:, j]) @ P)

    __radd__, __rmul__ = __add__, __mul__

    def compose(self, series):
        """sum_k series[k](h0) (h - h0)^k"""
        g = Jet(self.dims, self.deg, self.c.copy())
        g.c[:, 0] = 0
        out = Jet.const(series[self.deg], self.dims, self.deg, len(self.c))
        for k in range(self.deg - 1, -1, -1):
            out = out * g + Jet.const(series[k], self.dims, self.deg, len(self.c))
        return out

    def inverse(self):
        h = self.c[:, 0]
        return self.compose([(-1) ** k / h ** (k + 1) for k in range(self.deg + 1)])

    def __truediv__(self, o):
        a, b = self.pair(o)
        return a * b.inverse()

    def tanh(self):
        y = [np.tanh(self.c[:, 0])]
        for k in range(self.deg):
            y.append(((k == 0) - sum(y[i] * y[k - i] for i in range(k + 1))) / (k + 1))
        return self.compose(y)

    def sin(self):
        h, f = self.c[:, 0], 1.0
        s = []
        for k in range(self.deg + 1):
            f = f * (k or 1)
            s.append([np.sin(h), np.cos(h), -np.sin(h), -np.cos(h)][k % 4] / f)
        return self.compose(s)

    def exp(self):
        h, f, s = self.c[:, 0], 1.0, []
        for k in range(self.deg + 1):
            f = f * (k or 1)
            s.append(np.exp(h) / f)
        return self.compose(s)

    def sinh(self):
        return (self.exp() - (-self).exp()) * 0.5

    def power(self, p):
        h, f, s = self.c[:, 0], 1.0, []
        for k in range(self.deg + 1):
            s.append(f * h ** (p - k))
            f = f * (p - k) / (k + 1)
        return self.compose(s)

    def softplus(self):
        h = self.c[:, 0]
        y = [1 / (1 + np.exp(-h))]          # sigmoid: y' = y - y^2
        for k in range(self.deg):
            y.append((y[k] - sum(y[i] * y[k - i] for i in range(k + 1))) / (k + 1))
        return self.compose([np.log1p(np.exp(h))] + [y[k - 1] / k for k in range(1, self.deg + 1)])

    def diff(self, i):
        """Partial derivative with respect to variable i (order drops by one)."""
        if self.deg == 0:
            raise ValueError("order exhausted")
        mi, ix, *_ = table(self.dims, self.deg)
        low = table(self.dims, self.deg - 1)[0]
        c = np.empty((len(self.c), len(low)))
        for k, m in enumerate(low):
            up = tuple(x + (j == i) for j, x in enumerate(m))
            c[:, k] = self.c[:, ix[up]] * up[i]
        return Jet(self.dims, self.deg - 1, c)

    @property
    def value(self):
        return self.c[:, 0]
