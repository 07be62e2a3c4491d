import warnings

import numpy as np
from hypothesis import strategies as st

import gen
import polyref
from base import cut, rejects, require, require_equal, require_close, num
from polyref import EPS, fr
from casadi_extras.collocation import (ButcherTableau, butcherTableuForCollocationMethod,
                                       butcherTableuForCollocationPoints)

RULE = ('case = distinct nodes (any order, inside or outside [0,1]) and container, a (method, order) request, and sizes of '
        'an explicit tableau; non-trivial = at least 2 nodes whose rounding bound is below 1e-4')
ASSUMPTIONS = ['node sets whose power-basis rounding bound exceeds 1e-4 are only checked for shape and c']
BUDGET = {'quick': 5000, 'thorough': 60000}


def strategy(tier):
    @st.composite
    def case(draw):
        v = draw(gen.nodes(unit=draw(st.sampled_from([True, True, False]))))
        return {'nodes': v, 'as': draw(st.sampled_from(['array', 'list'])),
                'method': [draw(st.integers(1, 9)), draw(st.sampled_from(['legendre', 'radau']))],
                'sizes': draw(st.one_of(st.integers(1, 4).map(lambda k: [k] * 4), st.lists(st.integers(1, 4), min_size=4, max_size=4))),
                'dims': draw(st.sampled_from(['ok', 'ok', 'ok', 'A1', 'b2', 'c2'])),
                'fill': draw(gen.matrix(4, 4))}
    return case()


def corpus(tier):
    for n in range(1, 10):
        for m in ('legendre', 'radau'):
            yield {'nodes': polyref.nodes(n, m), 'as': 'list', 'method': [n, m], 'sizes': [n % 4 + 1] * 4, 'dims': 'ok',
                   'fill': [[1.0, 2.0, 3.0, 4.0]] * 4}
    for n in (1, 2, 3):
        for d in ('A1', 'b2', 'c2'):
            yield {'nodes': [0.0, 1.0], 'as': 'list', 'method': [n, 'radau'], 'sizes': [n] * 4, 'dims': d, 'fill': [[1.0, 2.0, 3.0, 4.0]] * 4}


def tableau(what, bt, v, info):
    n = len(v)
    A, b, c = num('A', bt.A), num('b', bt.b), num('c', bt.c)
    require(A.shape == (n, n) and b.shape == (n,) and c.shape == (n,), '%s: shapes %s %s %s', what, A.shape, b.shape, c.shape)
    ref = polyref.Lagrange(v)
    bex = polyref.floats(ref.integral_row(1))
    far = max(abs(x) for x in v)

    # rounding of the coefficients on the whole range of the nodes, plus that of normalising them at the nodes;
    # the worst node counts, since a tableau found by solving for all of them mixes their errors
    weight = max(ref.power_weight(j, far) for j in range(n))
    big = max(ref.power_weight(j, max(1.0, far)) for j in range(n))

    def tol(j, x, ex):
        return 100 * n * EPS * ((weight if abs(x) <= far else big) * abs(x) + abs(ex) * weight)

    for j in range(n):
        t = tol(j, 1.0, bex[j])
        if t < 1e-4 * max(1.0, abs(bex[j])):
            info.hit(n > 1)
            require_close('%s: b[%d]' % (what, j), b[j], bex[j], t)
    for i in range(n):
        ex = polyref.floats(ref.integral_row(v[i]))
        for j in range(n):
            t = tol(j, v[i], ex[j])
            if t < 1e-4 * max(1.0, abs(v[i]), abs(ex[j])):
                info.hit(n > 1)
                require_close('%s: A[%d,%d]' % (what, i, j), A[i, j], ex[j], t + 1e-300)
    return A, b, c, ref


def check(case, info):
    v = case['nodes']
    arg = np.array(v) if case['as'] == 'array' else list(v)
    bt = cut('butcherTableuForCollocationPoints', butcherTableuForCollocationPoints, arg)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        n, m = case['method']
        bm = cut('butcherTableuForCollocationMethod', butcherTableuForCollocationMethod, n, m)
    A, b, c, ref = tableau('tableau of points', bt, v, info)
    require_equal('tableau nodes', c, np.array(v))
    require(list(arg) == list(v), 'the node array was modified')

    rn = polyref.nodes(n, m)
    require_close('%s(%d) tableau nodes' % (m, n), num('c', bm.c), np.array(rn), 1e-14)
    # the reference is for the nodes the tableau reports: node rounding is not amplified
    A, b, c, ref = tableau('%s(%d) tableau' % (m, n), bm, [float(x) for x in num('c', bm.c)], info)
    w = 200 * n * EPS * max(ref.power_weight(j, 1.0) for j in range(n)) + 1e-13
    for k in range(2 * n if m == 'legendre' else 2 * n - 1):
        require_close('%s(%d): order of b at degree %d' % (m, n, k), float(np.dot(b, c ** k)), 1.0 / (k + 1), n * w)
    info.label('%s' % m, 'n=%d' % len(v))

    # explicit tableau
    s = case['sizes']
    fill = np.array(case['fill'])
    A, b, c = fill[:s[0], :s[1]].copy(), fill[0, :s[2]].copy(), fill[1, :s[3]].copy()
    d = case['dims']
    if d == 'A1':
        A = A[0]
    elif d == 'b2':
        b = b[None, :]
    elif d == 'c2':
        c = c[:, None]
    if d == 'ok' and len(set(s)) == 1:
        t = cut('ButcherTableau', ButcherTableau, A, b, c)
        require_equal('A', num('A', t.A), A)
        require_equal('b', num('b', t.b), b)
        require_equal('c', num('c', t.c), c)
        info.label('explicit ok')
    else:
        rejects('ButcherTableau with A %s, b %s, c %s' % (A.shape, b.shape, c.shape), ButcherTableau, A, b, c)
        info.label('explicit rejected')
