import numpy as np
from hypothesis import strategies as st

import gen
import polyref
from base import cut, require, require_equal, require_close, num
from polyref import EPS
from casadi_extras.collocation import PolynomialBasis, cheb

RULE = ('case = distinct nodes (any order) plus a Chebyshev grid request (order, interval in either orientation) and data '
        'rows; non-trivial = at least 3 nodes')
ASSUMPTIONS = ['node sets and intervals for which rounding of the nodes alone perturbs the derivative by more than 1e-4 '
               'relative are not compared']
BUDGET = {'quick': 5000, 'thorough': 60000}


def strategy(tier):
    @st.composite
    def case(draw):
        v = draw(gen.nodes())
        t0 = draw(gen.val(-5, 5))
        d = draw(st.sampled_from([-1.0, 1.0, 1.0])) * draw(st.one_of(st.integers(1, 200).map(lambda k: k / 16.0),
                                                                      st.floats(0.01, 100.0)))
        return {'nodes': v, 'u': draw(gen.matrix(draw(st.integers(1, 2)), len(v))),
                'cheb': [draw(st.integers(1, 16)), t0, t0 + d],
                'as': draw(st.sampled_from(['array', 'list', 'int']))}
    return case()


def corpus(tier):
    for N in range(1, 21):
        for (a, b) in ((0.0, 1.0), (1.0, 3.5), (2.0, -1.0)):
            yield {'nodes': polyref.nodes(max(1, min(N, 9)), 'radau'), 'u': [], 'cheb': [N, a, b], 'as': 'array'}


def check(case, info):
    v = case['nodes']
    n = len(v)
    ref = polyref.Lagrange(v)
    arg = np.array(v) if case['as'] == 'array' else [int(x) for x in v] if case['as'] == 'int' and all(
        x == int(x) for x in v) else list(v)
    keep = list(arg)
    basis = cut('PolynomialBasis', PolynomialBasis, arg)
    D = num('D', basis.D)
    require(D.shape == (n, n), 'differentiation matrix of %d nodes has shape %s', n, D.shape)
    E = ref.D()
    Ef = np.array([polyref.floats(r) for r in E])
    mag = np.sum(np.abs(Ef), axis=1)
    tol = 1e3 * n * EPS * mag
    require_close('differentiation matrix', D, Ef, tol[:, None] + 1e-300)
    require_close('row sums of the differentiation matrix', np.sum(D, 1), np.zeros(n), n * tol + 1e-300)
    for row in case['u']:
        ex = np.array([polyref.dotf([polyref.fr(a) for a in row], r) for r in E])
        require_close('derivative of nodal values', np.dot(row, D.T), ex, tol * np.max(np.abs(row)) * n + 1e-300)
    require(list(arg) == keep, 'the node array was modified')

    N, a, b = case['cheb']
    Dc, t = cut('cheb', cheb, N, a, b)
    Dc, t = num('cheb D', Dc), num('cheb grid', t)
    require(t.shape == (N + 1,) and Dc.shape == (N + 1, N + 1), 'cheb(%d) returned shapes %s, %s', N, Dc.shape, t.shape)
    require(len(set(t.tolist())) == N + 1, 'cheb(%d) grid points coincide', N)
    rc = polyref.Lagrange(t)
    Ef = np.array([polyref.floats(r) for r in rc.D()])
    gap = np.min(np.abs(np.diff(t)))
    rel = 1e3 * N * EPS + 16 * N * EPS * max(abs(a), abs(b)) / gap
    if rel < 1e-4:
        require_close('Chebyshev differentiation matrix on its grid', Dc, Ef, rel * np.sum(np.abs(Ef), 1)[:, None])
        info.label('cheb ' + ('forward' if b > a else 'backward'))
    info.hit(n >= 3)
    info.label('n=%d' % n)
