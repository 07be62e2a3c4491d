import casadi as cs
import numpy as np
from hypothesis import strategies as st

import gen
import polyref
from base import cut, rejects, require, require_equal, require_close, num
from polyref import EPS
from casadi_extras.collocation import Pdq

RULE = ('case = interval bounds, order, node family, nodal values of a continuous piecewise polynomial, inputs per '
        'interval, numeric or symbolic arguments; non-trivial = at least 2 intervals and order at least 2')
ASSUMPTIONS = ["grids on which rounding of the points alone perturbs the derivative by more than 1e-4 relative are not compared"]
BUDGET = {'quick': 2500, 'thorough': 30000}


def strategy(tier):
    @st.composite
    def case(draw):
        fam = draw(st.sampled_from(['chebyshev', 'chebyshev', 'radau', 'legendre']))
        order = draw(st.integers(1, 10 if fam == 'chebyshev' else 7))
        t = draw(gen.grid(max_intervals=draw(st.sampled_from([3, 5, 5, 12])) if order <= 4 else 4, ratio=16))
        npts = (len(t) - 1) * order + 1
        m = draw(st.integers(1, 2))
        return {'t': t, 'order': order, 'family': fam, 'y': draw(gen.matrix(m, npts)),
                'u': draw(gen.matrix(draw(st.integers(1, 2)), len(t) - 1)),
                't_as': draw(st.sampled_from(gen.GRID_AS)),
                'y_as': draw(st.sampled_from(['array', 'DM', 'MX'])),
                'defaults': draw(st.booleans())}
    return case()


def corpus(tier):
    for fam in ('chebyshev', 'radau', 'legendre'):
        for order in (1, 2, 3, 5):
            for t in ([0.0, 1.0], [0.0, 1.0, 3.0], [1.0, 1.5, 2.5, 4.5]):
                npts = (len(t) - 1) * order + 1
                yield {'t': t, 'order': order, 'family': fam, 'y': [[float((3 * k * k + k) % 7) for k in range(npts)]],
                       'u': [[float(k + 1) for k in range(len(t) - 1)]], 't_as': 'list', 'y_as': 'array', 'defaults': False}


def build(case):
    t = gen.as_grid(case['t'], case['t_as'])
    kw = {'poly_order': case['order'], 'polynomial_type': case['family']}
    if case.get('defaults'):
        if case['family'] == 'chebyshev':
            del kw['polynomial_type']
        if case['order'] == 5:
            del kw['poly_order']
    return cut('Pdq', Pdq, t, **kw), t


def points(case):
    """Reference grid."""
    v = polyref.nodes(case['order'], case['family'])
    if case['family'] != 'chebyshev':
        v = [0.0] + v
    out = []
    t = case['t']
    for i in range(len(t) - 1):
        out += [t[i] + x * (t[i + 1] - t[i]) for x in v[:-1]]
    return np.array(out + [t[-2] + v[-1] * (t[-1] - t[-2])])


def give(a, kind):
    a = np.array(a, dtype=float)
    return a if kind == 'array' else cs.DM(a) if kind == 'DM' else cs.MX(cs.DM(a))


def grid_check(case, pdq, t):
    T, n = case['t'], case['order']
    N = len(T) - 1
    P = num('collocationPoints', pdq.collocationPoints)
    big = max(abs(x) for x in T)
    require(P.shape == (N * n + 1,), 'grid has %s points for %d intervals of order %d', P.shape, N, n)
    require_close('collocation points', P, points(case), 32 * EPS * big + 1e-14 * max(np.diff(T)))
    require(bool(np.all(np.diff(P) > 0)), 'collocation points are not ascending')
    require_equal('intervalBounds', num('bounds', pdq.intervalBounds), np.array(T))
    require(pdq.numIntervals == N, 'numIntervals %s instead of %d', pdq.numIntervals, N)
    require(pdq.polyOrder == n, 'polyOrder %s instead of %d', pdq.polyOrder, n)
    require(pdq.t0 == P[0] and pdq.tf == P[-1], 't0, tf = %s, %s but the points span %s..%s', pdq.t0, pdq.tf, P[0], P[-1])
    require_close('intervalLength', float(pdq.intervalLength()), P[-1] - P[0], 4 * EPS * big)
    return P


def check(case, info):
    T, n = case['t'], case['order']
    N = len(T) - 1
    pdq, t = build(case)
    P = grid_check(case, pdq, t)
    info.hit(N >= 2 and n >= 2)
    info.label(case['family'], 'order=%d' % n)

    y = np.array(case['y'])
    dy = np.zeros((len(y), N * n))
    dtol = np.zeros_like(dy)
    ytol = np.zeros((len(y), N * n))
    acc = np.zeros(len(y))
    ok = True
    for i in range(N):
        g = slice(i * n, (i + 1) * n + 1)
        ref = polyref.Lagrange(P[g])
        E = np.array([polyref.floats(r) for r in ref.D()])
        gap = float(np.min(np.diff(P[g])))
        # D may be computed from points carrying another rounding than P
        rel = 1e3 * n * EPS + 32 * n * EPS * max(abs(P[g])) / gap
        ok = ok and rel < 1e-4
        for k in range(n):
            for r in range(len(y)):
                row = ref.deriv_row(P[i * n + k])
                dy[r, i * n + k] = polyref.dotf([polyref.fr(a) for a in y[r, g]], row)
                dtol[r, i * n + k] = rel * float(np.sum(np.abs(E[k]))) * float(np.max(np.abs(y[r, g]))) * n
        inv = np.linalg.inv(E[:-1, 1:])
        cond = float(np.max(np.sum(np.abs(inv), 1)) * np.max(np.sum(np.abs(E), 1)))
        ok = ok and rel * cond < 1e-4
        acc = acc + rel * n * (10 + cond) * np.max(np.abs(y[:, g]), axis=1)
        ytol[:, i * n:(i + 1) * n] = acc[:, None]
    Y = give(y, case['y_as'])
    got = num('derivative', cut('derivative', pdq.derivative, Y))
    if ok:
        require_close('derivative of sampled values', got, dy, dtol + 1e-300)
    Z = num('integral', cut('integral', pdq.integral, give(dy, case['y_as'])))
    if ok:
        info.label('integral')
        require_close('integral of the derivative', Z, y[:, 1:] - y[:, :1], 4 * ytol + 1e-300)

    u = np.array(case['u'])
    U = num('expandInput', cut('expandInput', pdq.expandInput, give(u, case['y_as'])))
    require_equal('expanded input', U, np.repeat(u, n, axis=1))
    rejects('expandInput with %d columns for %d intervals' % (N + 1, N), pdq.expandInput, np.ones((1, N + 1)))
    require(list(t) == T, 'interval bounds were modified')
    for k in range(N):
        bad = list(T)
        bad[k], bad[k + 1] = bad[k + 1], bad[k]
        rejects('Pdq on the bounds %s' % bad, Pdq, np.array(bad), n, case['family'])
        bad[k] = bad[k + 1]
        rejects('Pdq on the bounds %s' % bad, Pdq, np.array(bad), n, case['family'])
    require(np.array_equal(num('points', pdq.collocationPoints), P), 'collocation points changed')
