import numpy as np
from hypothesis import strategies as st

import gen
import polyref
from base import cut, require, require_equal, require_close, num
from polyref import EPS
from casadi_extras.collocation import PolynomialBasis, barycentricInterpolator, polynomialInterpolator

RULE = ('case = node set(s) in some order and container, query points (at, next to, between and outside nodes), data '
        'rows; non-trivial = at least 2 nodes and at least one compared query that is not a node')
ASSUMPTIONS = ['queries for which double precision interpolation on these nodes is ill-conditioned beyond the error '
               'bound are not compared']
BUDGET = {'quick': 4000, 'thorough': 60000}


def strategy(tier):
    @st.composite
    def case(draw):
        v = draw(gen.nodes())
        w = draw(gen.nodes())
        q = draw(st.lists(gen.query(v), min_size=1, max_size=5)) * draw(st.sampled_from([1] * 9 + [30]))
        rows = draw(st.integers(1, 3))
        u = draw(gen.matrix(rows, len(v)))
        return {'nodes': v, 'other': w, 'q': q, 'u': u,
                'nodes_as': draw(st.sampled_from(['array', 'array', 'list', 'int'])),
                'q_as': draw(st.sampled_from(['array', 'list', 'scalar', 'npscalar'])),
                'u_as': draw(st.sampled_from(['2d', '2d', '1d']))}
    return case()


def corpus(tier):
    for n in (1, 2, 3, 5, 9):
        for fam in ('chebyshev', 'legendre', 'radau'):
            v = polyref.nodes(n, fam)
            yield {'nodes': v, 'other': [0.0, 1.0], 'q': [['node', 0, 1], ['in', 0.3], ['node', n - 1, 1], ['in', 0.81],
                   ['near', 0, 1e-6], ['out', 1, 0.5]], 'u': [[float((3 * k * k) % 7 - 3) for k in range(len(v))]],
                   'nodes_as': 'array', 'q_as': 'array', 'u_as': '2d'}


def containers(case):
    v = case['nodes']
    if case['nodes_as'] == 'int' and all(x == int(x) for x in v):
        return [int(x) for x in v]
    if case['nodes_as'] == 'array':
        return np.array(v)
    return list(v)


def check(case, info):
    v, u = case['nodes'], np.array(case['u'], dtype=float)
    n = len(v)
    ref = polyref.Lagrange(v)
    arg = containers(case)
    keep = list(arg)
    basis = cut('PolynomialBasis', PolynomialBasis, arg)
    other = cut('PolynomialBasis', PolynomialBasis, np.array(case['other']))
    require(basis.numPoints == n and basis.order == n - 1, 'numPoints/order of a basis with %d nodes', n)
    require_equal('basis nodes', num('tau', basis.tau), np.array(v))
    require(len(basis.poly) == n, 'number of basis polynomials')

    xs = [gen.resolve(q, v) for q in case['q']]
    rows, tols, good = [], [], []
    for x in xs:
        r = polyref.floats(ref.row(x))
        lam = float(np.sum(np.abs(r)))
        rows.append(r)
        tols.append(1e3 * n * EPS * (1 + lam) * np.abs(r) + 200 * n * EPS * lam)
        good.append(n * EPS * lam < 1e-6)

    if case['q_as'] in ('scalar', 'npscalar'):
        ms = [cut('interpolationMatrix', basis.interpolationMatrix, x if case['q_as'] == 'scalar' else np.float64(x)) for x in xs]
        for m in ms:
            require(np.shape(m) == (1, n), 'interpolation matrix of a scalar query has shape %s', np.shape(m))
        M = np.vstack([num('row', m) for m in ms])
    else:
        qa = np.array(xs) if case['q_as'] == 'array' else list(xs)
        qk = list(qa)
        M = num('matrix', cut('interpolationMatrix', basis.interpolationMatrix, qa))
        require(list(qa) == qk, 'the query points were modified')
    require(M.shape == (len(xs), n), 'interpolation matrix shape %s for %d queries and %d nodes', M.shape, len(xs), n)

    cut('interpolationMatrix', other.interpolationMatrix, 0.123)
    for k, x in enumerate(xs):
        if x in v:
            e = np.zeros(n)
            e[v.index(x)] = 1.0
            require_equal('interpolation matrix row at node %r' % x, M[k], e)
            info.label('at node')
        if not good[k]:
            continue
        if x not in v and n > 1:
            info.hit()
            info.label('inside' if min(v) <= x <= max(v) else 'outside')
        require_close('interpolation matrix at %r' % x, M[k], rows[k], tols[k])
        again = num('row', cut('interpolationMatrix', basis.interpolationMatrix, x))
        require_close('interpolation matrix at %r (alone)' % x, again[0], rows[k], tols[k])

    # data interpolation
    if case['u_as'] == '1d':
        u = u[0]
    ku = u.copy()
    U = np.atleast_2d(u)
    bary = cut('barycentricInterpolator', barycentricInterpolator, np.array(v))
    cut('barycentricInterpolator', barycentricInterpolator, np.array(case['other']))
    exact = np.array([[polyref.dotf([polyref.fr(a) for a in row], ref.row(x)) for x in xs] for row in U])
    btol = np.array([[float(np.sum(np.abs(row) * tols[k])) + 4 * n * EPS * float(np.sum(np.abs(row * rows[k])))
                      for k in range(len(xs))] for row in U])
    g = np.array(good)
    B = num('values', cut('barycentric interpolation', bary, u, np.array(xs)))
    require(B.shape == (exact.shape if u.ndim == 2 else exact.shape[1:]), 'shape %s of interpolated values', B.shape)
    require_close('barycentric interpolation', np.atleast_2d(B)[:, g], exact[:, g], btol[:, g])
    B1 = num('values', cut('barycentric interpolation', bary, u, xs[0]))
    if good[0]:
        require_close('barycentric interpolation (scalar query)', B1.reshape(-1), exact[:, 0], btol[:, 0])

    # Vandermonde based interpolator
    van = cut('polynomialInterpolator', polynomialInterpolator, np.array(arg))
    inv = np.array([[float(c) for c in ref.coef(j)] for j in range(n)])           # rows: nodes, cols: powers
    X = np.array([[abs(t) ** k for t in v] for k in range(n)])
    ninv, nX = np.max(np.sum(np.abs(inv), 1)), np.max(np.sum(X, 1))
    if n * n * EPS * ninv * nX < 1e-6:       # else the power basis is numerically singular on these nodes
        V = num('values', cut('polynomial interpolation', van, u, np.array(xs)))
        require(V.shape == (exact.shape if u.ndim == 2 else exact.shape[1:]), 'shape %s of interpolated values', V.shape)
        for k, x in enumerate(xs):
            nb = max(abs(x) ** d for d in range(n))
            t = 50 * n * n * EPS * ninv * (nX * np.max(np.abs(rows[k])) + nb)
            if t < 1e-4:
                info.label('vandermonde')
                require_close('polynomial interpolation at %r' % x, np.atleast_2d(V)[:, k], exact[:, k],
                              t * np.sum(np.abs(U), 1) + 1e-300)

    # power basis polynomials
    q = cut('compose', basis.compose, U)
    require(len(q) == len(U), 'compose returned %d polynomials for %d rows', len(q), len(U))
    for k, x in enumerate(xs):
        W = np.array([ref.power_weight(j, x) for j in range(n)])
        for j in range(n):
            if n * EPS * W[j] < 1e-6:
                require_close('basis polynomial %d at %r' % (j, x), float(cut('poly', basis.poly[j], x)), rows[k][j],
                              100 * n * EPS * W[j])
        for i, row in enumerate(U):
            t = 100 * n * EPS * float(np.sum(np.abs(row) * W))
            if t < 1e-3:
                info.label('compose')
                require_close('composed polynomial %d at %r' % (i, x), float(cut('poly', q[i], x)), exact[i, k], t + 1e-300)

    require(list(arg) == keep, 'the node array was modified')
    require(np.array_equal(u, ku), 'the data array was modified')

    # the caller goes on using their array
    if case['nodes_as'] == 'array':
        arg += 1.0
        again = num('matrix', cut('interpolationMatrix', basis.interpolationMatrix, np.array(xs)))
        require_close('interpolation matrix after the caller changed their node array', again[g], np.array(rows)[g], np.array(tols)[g])
    info.label('n=%d' % n)
