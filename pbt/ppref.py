"""Exact reference for piecewise polynomials given by nodal values on each interval."""
from fractions import Fraction as F

import numpy as np

import polyref
from polyref import EPS, fr


class Pieces(object):
    """bounds: N+1 floats; coef: N matrices (m x n nodal values); nodes: n nodes on the unit interval."""

    def __init__(self, bounds, coef, nodes):
        self.t = [fr(v) for v in bounds]
        self.tf = list(bounds)
        self.coef = [np.array(c, dtype=float).reshape(len(c), -1) for c in coef]
        self.ref = polyref.Lagrange(nodes)
        self.n = len(nodes)
        self.D = np.array([polyref.floats(r) for r in self.ref.D()])

    def piece(self, t, side='right'):
        t = fr(t)
        N = len(self.t) - 1
        i = 0
        while i < N - 1 and (self.t[i + 1] <= t if side == 'right' else self.t[i + 1] < t):
            i += 1
        return i

    def value(self, t, i, order=0):
        """(values, tolerances) of the order-th derivative of piece i at time t; None if ill-conditioned."""
        h = self.t[i + 1] - self.t[i]
        tau = (fr(t) - self.t[i]) / h
        rows = self.ref.row(tau) if order == 0 else self.ref.deriv_row(tau, order)
        c = self.coef[i]
        ex = np.array([float(sum((fr(a) * r for a, r in zip(row, rows)), F(0)) / h ** order) for row in c])
        lag = float(sum(abs(r) for r in self.ref.row(tau)))
        if self.n * EPS * lag * (1 + lag) > 1e-7:
            return ex, None
        mag = np.max(np.abs(c), axis=1)
        normD = float(np.max(np.sum(np.abs(self.D), axis=1)))
        base = 1e3 * self.n * EPS * lag * (1 + lag) * mag * normD ** order
        # rounding of the normalised time (bounds and times are large compared to the interval: still one rounding)
        dtau = 16 * EPS * (abs(float(tau)) + 1e-3)
        slope = sum(abs(float(r)) for r in self.ref.deriv_row(tau, order + 1))
        tol = (base + dtau * slope * mag) / float(h) ** order + 1e-300
        return ex, tol
