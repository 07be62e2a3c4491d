import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
from base import cut, require, require_equal, require_close, num
from polyref import EPS

RULE = ('case = regular random DAE (linear + mildly nonlinear, implicit or semi-explicit, optionally two algebraic branches), '
        'grid, order, method, initial state, guess, inputs, parameters; all outputs checked against an independent '
        'transcription of the collocation conditions; non-trivial = the right-hand side is not constant')
ASSUMPTIONS = ['the Newton solver of casadi reaches its tolerance; residuals are compared with 1e-7 relative tolerance',
               "the output 'zf' is not claimed (documented TODO in the code)"]
BUDGET = {'quick': 5000, 'thorough': 60000}
TOL = 1e-7


def strategy(tier):
    return daegen.ivp()


def corpus(tier):
    m = {'n': {'x': 2, 'z': 1, 'u': 1, 'p': 1, 'd': 0}, 'implicit': False, 'omit': True, 't': True, 'structs': [],
         'branch': True, 'ode': [['x', 1], ['-', ['*', ['u', 0], ['p', 0]], ['*', ['x', 0], ['z', 0]]]],
         'alg': [['-', ['*', ['z', 0], ['z', 0]], ['+', ['c', 2.0], ['*', ['c', 0.5], ['sin', ['t']]]]]],
         'quad': [['*', ['x', 0], ['p', 0]], ['*', ['t'], ['u', 0]]]}
    for order in (1, 2, 3, 5):
        for method in ('legendre', 'radau', 'default'):
            for z in (-1.5, 1.5):
                yield {'model': m, 't': [0.5, 0.75, 1.25, 1.375], 'order': order, 'method': method, 'x0': [1.0, -0.5], 'z0': [z],
                       'u': [[1.0, -2.0, 0.5]], 'p': [1.5], 't_as': 'list', 'tdp_as': 'numpy', 'factory': False,
                       'call': 'kw', 'same_name': False}
    # two algebraic states on branches of their own
    two = dict(m, n=dict(m['n'], z=2), branches=[0, 1],
               alg=m['alg'] + [['-', ['*', ['z', 1], ['z', 1]], ['+', ['c', 3.0], ['*', ['c', 0.5], ['sin', ['x', 0]]]]]])
    for z in ([1.5, -1.5], [-1.5, 1.5], [-1.25, -2.0]):
        yield {'model': two, 't': [0.5, 0.75, 1.25], 'order': 2, 'method': 'legendre', 'x0': [1.0, -0.5], 'z0': z,
               'u': [[1.0, -2.0]], 'p': [1.5], 't_as': 'array', 'tdp_as': 'numpy', 'factory': False, 'call': 'kw',
               'same_name': False}


def solution_check(case, out, info, what='integrator'):
    """out: dict of DM. Raises Violation unless it is the collocation solution."""
    m, t, M = case['model'], case['t'], case['order']
    n, N = m['n'], len(t) - 1
    nq = len(m['quad'])
    A, b, c = daegen.tableau(M, 'legendre' if case['method'] == 'default' else case['method'])
    g = {k: num(k, out[k]) for k in ('xf', 'qf', 'X', 'Z', 'Q', 'x', 'K', 'tc')}
    shapes = {'xf': (n['x'], N), 'X': (n['x'], N * M), 'Z': (n['z'], N * M), 'Q': (nq, N * M), 'x': (n['x'], N + 1),
              'K': (n['x'], N * M)}
    for k, s in shapes.items():
        require(g[k].shape == s, '%s: output %s has shape %s, expected %s', what, k, g[k].shape, s)
    scale = 1 + max(np.max(np.abs(g['x'])), np.max(np.abs(g['K'])), np.max(np.abs(g['X'])),
                    np.max(np.abs(g['Z'])) if n['z'] else 0.0)
    require(np.isfinite(scale), '%s: non-finite result', what)
    tol = TOL * scale
    require_close('%s: initial state' % what, g['x'][:, 0], np.array(case['x0']), 1e-9 * scale)
    require_equal('%s: end states' % what, g['xf'], g['x'][:, 1:])
    q = np.zeros(nq)
    big = max(1.0, max(abs(v) for v in t))
    u = np.array(case['u'], dtype=float).reshape(n['u'], N)
    for i in range(N):
        h = t[i + 1] - t[i]
        sl = slice(i * M, (i + 1) * M)
        K = g['K'][:, sl]
        require_close('%s: collocation times' % what, g['tc'].ravel()[sl], t[i] + h * c, 1e-13 * big)
        require_close('%s: states at collocation points of interval %d' % (what, i), g['X'][:, sl],
                      g['x'][:, i:i + 1] + h * K.dot(A.T), tol)
        require_close('%s: continuity after interval %d' % (what, i), g['x'][:, i + 1], g['x'][:, i] + h * K.dot(b), tol)
        w = np.zeros((nq, M))
        for k in range(M):
            j = i * M + k
            tj = t[i] + h * c[k]
            s = {'x': g['X'][:, j], 'xd': g['K'][:, j], 'z': g['Z'][:, j], 'u': u[:, i], 'p': case['p'], 't': tj,
                 'd': daegen.tdp_value(m, tj)}
            r, mag = daegen.residual(m, s)
            require_close('%s: DAE residual at t=%r' % (what, tj), r, np.zeros(len(r)), TOL * (1 + mag) * scale)
            w[:, k] = daegen.evs(m['quad'], s)[0]
        qs = TOL * (1 + (np.max(np.abs(w)) if nq else 0.0)) * scale * 10
        require_close('%s: quadrature at collocation points of interval %d' % (what, i), g['Q'][:, sl],
                      q[:, None] + h * w.dot(A.T), qs)
        q = q + h * w.dot(b)
    require_close('%s: final quadrature' % what, g['qf'].ravel(), q, TOL * 10 * scale * (1 + (np.max(np.abs(q)) if nq else 0)))
    if m['branch']:
        info.label('branch')
        for i in m.get('branches', [0]):
            require(bool(np.all(np.sign(g['Z'][i]) == np.sign(case['z0'][i]))),
                    '%s: algebraic state %s is not on the branch of the guess %s', what, g['Z'][i], case['z0'][i])
    return g


def check(case, info):
    m = case['model']
    dae, s, kw = cut('DAE construction', daegen.build, m)
    I = cut('integrator construction', daegen.integrator, case, dae)
    out = cut('integration', daegen.run, case, I)
    g = solution_check(case, out, info)

    # a second call with other arguments, then the first again
    other = dict(case, x0=[v + 0.5 for v in case['x0']], p=[v - 0.25 for v in case['p']],
                 u=[[v * 0.5 - 1 for v in r] for r in case['u']])
    solution_check(other, cut('integration', daegen.run, other, I), info, 'integrator (second call)')
    again = cut('integration', daegen.run, dict(case, call='pos' if case['call'] == 'kw' else 'kw'), I)
    for k in ('x', 'K', 'X', 'Z', 'Q'):
        require_equal('%s of the same call repeated' % k, num(k, again[k]), g[k])

    eqs = m.get('ode', []) + m.get('dae', [])
    info.hit(any(daegen.uses(eqs, k) for k in ('x', 'z', 't', 'u', 'p', 'd')))
    info.label('implicit' if m['implicit'] else 'semi-explicit', 'order=%d' % case['order'], case['method'])
    for k in ('z', 'u', 'p', 'd'):
        if m['n'][k]:
            info.label('has ' + k)
    if m['quad']:
        info.label('has quad')
