import casadi as cs
import numpy as np
from hypothesis import strategies as st

import gen
import polyref
from base import cut, rejects, require, require_equal, require_close, num
from polyref import EPS
from casadi_extras import SystemTrajectory
from props.c16 import build, grid_check

RULE = ('case = differential-quadrature grid, data at its points, continuity mode, query times at/next to/between/outside '
        'the bounds, trajectory data for x, z, u; non-trivial = at least 2 intervals and a compared query')
BUDGET = {'quick': 2500, 'thorough': 30000}


def strategy(tier):
    @st.composite
    def case(draw):
        fam = draw(st.sampled_from(['chebyshev', 'chebyshev', 'radau', 'legendre']))
        order = draw(st.integers(1, 6))
        t = draw(gen.grid(max_intervals=draw(st.sampled_from([3, 5, 5, 12])) if order <= 4 else 4, ratio=16))
        npts = (len(t) - 1) * order + 1
        return {'t': t, 'order': order, 'family': fam,
                'x': draw(gen.matrix(draw(st.integers(1, 2)), npts)),
                'z': draw(gen.matrix(draw(st.integers(1, 2)), npts - 1)),
                'u': draw(gen.matrix(draw(st.integers(1, 2)), npts - 1)),
                'cont': draw(st.sampled_from(['both', 'left', 'right', None])),
                'q': draw(gen.time_queries(6)),
                'q_as': draw(st.sampled_from(['array', 'list', 'scalar'])),
                't_as': draw(st.sampled_from(gen.GRID_AS)),
                'flat': draw(st.booleans()), 'swap': draw(st.booleans()),
                'wrong': draw(st.sampled_from(['x', 'z', 'u'])), 'by': draw(st.sampled_from([-1, 1, 2]))}
    return case()


def corpus(tier):
    for cont in ('both', 'left', 'right'):
        for fam in ('chebyshev', 'radau', 'legendre'):
            for order in (1, 2, 4):
                t = [0.0, 1.0, 3.0, 3.5]
                n = 3 * order + 1
                yield {'t': t, 'order': order, 'family': fam, 'x': [[float(k * k % 7) for k in range(n)]],
                       'z': [[float(k * 5 % 7) for k in range(n - 1)]], 'u': [[float(k * 3 % 11) for k in range(n - 1)]],
                       'cont': cont, 'q': [['bound', k, 1] for k in range(4)] + [['in', k, 0.3] for k in range(3)] +
                       [['ulp', k, s] for k in range(4) for s in (-1, 1)] + [['out', 1, 0.2], ['out', -1, 0.2]],
                       'q_as': 'array', 't_as': 'list', 'flat': False, 'swap': False, 'wrong': 'x', 'by': 1}


def reference(case, P, data, cont, x):
    """(values, tolerances or None)"""
    T, n = case['t'], case['order']
    N = len(T) - 1
    i = 0
    while i < N - 1 and (T[i + 1] < x if cont == 'left' else T[i + 1] <= x):
        i += 1
    g = list(range(i * n, (i + 1) * n + 1))
    if cont == 'left':
        g, cols = g[1:], [k - 1 for k in g[1:]]
    elif cont == 'right':
        g = cols = g[:-1]
    else:
        cols = g
    ref = polyref.Lagrange(P[g])
    row = ref.row(x)
    lag = float(sum(abs(r) for r in row))
    d = np.array(data)[:, cols]
    ex = np.array([polyref.dotf([polyref.fr(a) for a in r], row) for r in d])
    k = len(g)
    if k * EPS * lag * (1 + lag) > 1e-7:
        return ex, None
    return ex, 1e3 * k * EPS * lag * (1 + lag) * np.max(np.abs(d), axis=1) + 1e-300


def compare(what, case, P, data, cont, xs, Y, info):
    m = len(data)
    require(Y.shape == (m, len(xs)), '%s at %d times has shape %s', what, len(xs), Y.shape)
    known = {}
    for k, x in enumerate(xs):
        if x not in known:
            known[x] = reference(case, P, data, cont, x)
        ex, tol = known[x]
        if tol is None:
            continue
        info.hit(len(case['t']) > 2)
        info.label(what, 'outside' if not case['t'][0] <= x <= case['t'][-1] else
                   'breakpoint' if x in case['t'][1:-1] else 'inside')
        require_close('%s at t=%r' % (what, x), Y[:, k], ex, tol)


def ask(what, f, case, xs):
    if case['q_as'] == 'scalar':
        return np.hstack([np.atleast_2d(num(what, f(x))) for x in xs])
    return num(what, f(np.array(xs) if case['q_as'] == 'array' else list(xs)))


def check(case, info):
    pdq, t = build(case)
    P = grid_check(case, pdq, t)
    npts = P.size
    xs = [gen.resolve_time(q, case['t']) for q in case['q']]

    cont = case['cont'] or 'both'
    ip = cut('interpolator', pdq.interpolator) if case['cont'] is None else cut('interpolator', pdq.interpolator, cont)
    pdq.interpolator('left'), pdq.interpolator('right')
    data = np.array(case['x'] if cont == 'both' else case['z'])
    keep = data.copy()
    Y = cut('interpolation', ask, 'values', lambda q: ip(data, q), case, xs)
    compare('interpolation ' + cont, case, P, data, cont, xs, Y, info)
    require(np.array_equal(data, keep), 'the data was modified')
    wrong = np.ones((1, data.shape[1] + case['by'])) if data.shape[1] + case['by'] > 0 else np.ones((1, 0))
    rejects('interpolation (%s) of %d columns on %d points' % (cont, wrong.shape[1], npts), ip, wrong, xs[0])

    for c in ('Both', 'center', '', None, 0):
        rejects('continuity %r' % (c,), lambda: pdq.interpolator(c)(data, xs[0]))

    x, z, u = (np.array(case[k]) for k in 'xzu')
    if case['flat']:
        x, z, u = x[:1], z[:1], u[:1]
    args = [a[0] if case['flat'] else a for a in (x, z, u)]
    tr = cut('SystemTrajectory', SystemTrajectory, args[0], args[1], args[2], pdq)
    cut('SystemTrajectory', SystemTrajectory, args[0] + 1, args[1] + 1, args[2] + 1, pdq)
    calls = [('state', tr.state, x, 'both'), ('algState', tr.algState, z, 'right'), ('input', tr.input, u, 'right')]
    if case['swap']:
        calls = calls[::-1]
    for what, f, d, c in calls:
        compare('trajectory ' + what, case, P, d, c, xs, cut(what, ask, what, f, case, xs), info)
    require_equal('trajectory time', num('time', tr.time), np.array(case['t']))

    bad = {'x': x, 'z': z, 'u': u}
    bad[case['wrong']] = np.ones((1, bad[case['wrong']].shape[1] + case['by']))
    if bad[case['wrong']].shape[1] > 0:
        rejects('SystemTrajectory with %d columns of %s on %d points' % (bad[case['wrong']].shape[1], case['wrong'], npts),
                SystemTrajectory, bad['x'], bad['z'], bad['u'], pdq)
