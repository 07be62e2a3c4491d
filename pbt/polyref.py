"""Exact (rational) Lagrange polynomial reference with error bounds for double precision implementations."""
from fractions import Fraction as F

import numpy as np

EPS = 2.0 ** -52


def fr(x):
    return F(float(x))


class Lagrange(object):
    """Lagrange basis on the given nodes, exact rational arithmetic."""

    def __init__(self, nodes):
        self.nodes = [fr(v) for v in nodes]
        self.n = len(self.nodes)
        self._coef = {}
        self._row = {}
        self._den = []
        for j in range(self.n):
            d = F(1)
            for r in range(self.n):
                if r != j:
                    d *= self.nodes[j] - self.nodes[r]
            self._den.append(d)

    def coef(self, j):
        """Coefficients of l_j, lowest degree first."""
        if j not in self._coef:
            c = [F(1)]
            for r in range(self.n):
                if r != j:
                    t = self.nodes[r]
                    new = [F(0)] * (len(c) + 1)
                    for k, v in enumerate(c):
                        new[k + 1] += v
                        new[k] -= t * v
                    c = new
            self._coef[j] = [v / self._den[j] for v in c]
        return self._coef[j]

    def row(self, x):
        """[l_j(x)]"""
        x = x if isinstance(x, F) else fr(x)
        if x not in self._row:
            out = []
            for j in range(self.n):
                v = F(1)
                for r in range(self.n):
                    if r != j:
                        v *= x - self.nodes[r]
                out.append(v / self._den[j])
            self._row[x] = out
        return list(self._row[x])

    def deriv_row(self, x, order=1):
        """[l_j^(order)(x)]"""
        x = x if isinstance(x, F) else fr(x)
        out = []
        for j in range(self.n):
            c = self.coef(j)
            for _ in range(order):
                c = [k * v for k, v in enumerate(c)][1:] or [F(0)]
            out.append(horner(c, x))
        return out

    def D(self):
        return [self.deriv_row(t) for t in self.nodes]

    def integral_row(self, x):
        """[integral of l_j from 0 to x]"""
        x = x if isinstance(x, F) else fr(x)
        return [horner([F(0)] + [v / (k + 1) for k, v in enumerate(self.coef(j))], x) for j in range(self.n)]

    def power_weight(self, j, x):
        """Value at |x| of l_j with all the signs of its product form made positive: the amplification
        of rounding in any evaluation through power basis coefficients."""
        ax = abs(float(x))
        v = 1.0
        for r in range(self.n):
            if r != j:
                v *= (ax + abs(float(self.nodes[r]))) / abs(float(self.nodes[j] - self.nodes[r]))
        return v


def horner(c, x):
    v = F(0)
    for a in reversed(c):
        v = v * x + a
    return v


def floats(v):
    return np.array([float(a) for a in v], dtype=float)


def dotf(a, b):
    return float(sum((x * y for x, y in zip(a, b)), F(0)))


def _rodrigues(a, b, n):
    """d^n/dx^n [x^a (x-1)^b], coefficients lowest degree first."""
    c = [F(1)]
    for _ in range(b):
        new = [F(0)] * (len(c) + 1)
        for k, v in enumerate(c):
            new[k + 1] += v
            new[k] -= v
        c = new
    c = [F(0)] * a + c
    for _ in range(n):
        c = [k * v for k, v in enumerate(c)][1:]
    return c


def _roots01(c):
    """All roots in (0, 1) of a polynomial with simple roots there, by sign changes and bisection."""
    deg = len(c) - 1
    N = 2000
    out = []
    xs = [F(2 * k + 1, 2 * N + 1) for k in range(N)]
    xs = [F(1, 10 ** 6)] + xs + [1 - F(1, 10 ** 6)]
    prev, sp = xs[0], horner(c, xs[0]) > 0
    for x in xs[1:]:
        s = horner(c, x) > 0
        if s != sp:
            lo, hi = prev, x
            for _ in range(56):
                mid = (lo + hi) / 2
                if (horner(c, mid) > 0) == sp:
                    lo = mid
                else:
                    hi = mid
                lo, hi = F(int(lo * 2 ** 70), 2 ** 70), F(int(hi * 2 ** 70) + 1, 2 ** 70)
            out.append(float((lo + hi) / 2))
        prev, sp = x, s
    return out


_cache = {}


def nodes(order, family):
    """Reference abscissae on [0, 1] (without the leading 0 for legendre and radau)."""
    key = (order, family)
    if key not in _cache:
        if family == 'legendre':
            v = _roots01(_rodrigues(order, order, order))
            assert len(v) == order
        elif family == 'radau':
            v = (_roots01(_rodrigues(order - 1, order, order - 1)) if order > 1 else []) + [1.0]
            assert len(v) == order, (order, v)
        else:
            v = [float(np.sin(np.pi * k / (2.0 * order)) ** 2) for k in range(order + 1)]
        _cache[key] = v
    return list(_cache[key])
