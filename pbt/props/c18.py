import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
import gen
from base import cut, require, require_equal, require_close, num
from casadi_extras.collocation import CollocationScheme

RULE = ('case = DAE with random equations over all its variables, time grid, order, method, evaluation modes, and random '
        'values for every scheme variable; residuals compared with a numpy transcription; non-trivial = the equations use '
        'at least two kinds of variables and there are at least 2 collocation points')
ASSUMPTIONS = ['comparison tolerance is 1e-8 relative to the magnitude of the terms of each equation']
BUDGET = {'quick': 4000, 'thorough': 40000}
MODES = ['serial', 'unroll', 'inline', 'thread', 'openmp']
TOL = 1e-8


def strategy(tier):
    return scheme_case()


@st.composite
def scheme_case(draw, max_intervals=4):
    m = draw(daegen.model())
    big = draw(st.integers(0, 9)) == 0
    t = draw(gen.grid(max_intervals=11 if big else max_intervals, ratio=20, shifts=(0.0, 0.0, 1.0, -2.0, 5.0)))
    order = draw(st.sampled_from([1, 2] if big else [1, 2, 2, 3, 3, 4, 5, 7, 9]))
    if order > 4:
        t = t[:3]
    N, M, n = len(t) - 1, order, m['n']
    pts = N * M
    seedv = draw(gen.matrix(n['x'], N + 1, gen.val(-3, 3)))
    rep = draw(st.booleans())
    return {'model': m, 't': t, 'order': order, 'method': draw(st.sampled_from(['legendre', 'radau', 'default'])),
            'x': seedv,
            'K': draw(gen.matrix(n['x'], pts, gen.val(-3, 3))),
            'Z': draw(gen.matrix(n['z'], pts, gen.val(-3, 3))),
            'u': draw(gen.matrix(n['u'], N, gen.val(-3, 3))),
            'P': draw(gen.matrix(n['p'], pts if rep else 1, gen.val(-3, 3))),
            'ptie': draw(st.sampled_from(['free', 'equal', 'one', 'blocks'])),
            'pk': draw(st.integers(0, 100)),
            'repeat_param': rep,
            'mode': draw(st.sampled_from(MODES)), 'mode2': draw(st.sampled_from(MODES)),
            'expand': draw(st.sampled_from([True, False, None])),
            't_as': draw(st.sampled_from(gen.GRID_AS)),
            'tdp_as': draw(st.sampled_from(['numpy', 'DM', 'function'])),
            'positional': draw(st.booleans())}


def corpus(tier):
    m = {'n': {'x': 2, 'z': 1, 'u': 1, 'p': 1, 'd': 1}, 'implicit': False,
         'ode': [['+', ['x', 1], ['*', ['u', 0], ['t']]], ['-', ['*', ['p', 0], ['z', 0]], ['d', 0]]],
         'alg': [['-', ['*', ['z', 0], ['x', 0]], ['t']]], 'quad': [['*', ['x', 0], ['p', 0]], ['t']], 'omit': True,
         't': True, 'structs': [], 'tdp': [[1.0, 2.0, 0.5]]}
    for order in (1, 2, 3, 4):
        for method in ('legendre', 'radau'):
            for rep in (False, True):
                t = [0.5, 1.0, 3.0, 3.25]
                pts = 3 * order
                yield {'model': m, 't': t, 'order': order, 'method': method,
                       'x': [[1.0, 2.0, -1.0, 3.0], [0.5, -2.0, 1.5, 2.5]],
                       'K': [[float((3 * k + r) % 5 - 2) for k in range(pts)] for r in range(2)],
                       'Z': [[float(k % 4 + 1) for k in range(pts)]], 'u': [[1.0, -2.0, 3.0]],
                       'P': [[float(k % 3 + 1) for k in range(pts if rep else 1)]], 'ptie': 'free', 'pk': 0, 'repeat_param': rep,
                       'mode': 'serial', 'mode2': 'unroll', 'expand': None, 't_as': 'list', 'tdp_as': 'numpy',
                       'positional': False}


def make(case, dae, mode, expand):
    m = case['model']
    t = gen.as_grid(case['t'], case['t_as'])
    kw = {'parallelization': mode}
    if mode == 'serial' and case['ptie'] == 'free':
        kw = {}
    if case['method'] != 'default':
        kw['method'] = case['method']
    if expand is not None:
        kw['expand'] = expand
    if case['repeat_param']:
        kw['repeat_param'] = True
    f = daegen.tdp_fun(m, case['tdp_as'])
    if f is not None:
        kw['tdp_fun'] = f
    if case['positional']:
        return cut('CollocationScheme', CollocationScheme, dae, t, case['order'], **kw)
    return cut('CollocationScheme', CollocationScheme, dae=dae, t=t, order=case['order'], **kw)


def values(case):
    n, N, M = case['model']['n'], len(case['t']) - 1, case['order']
    pts = N * M
    P = np.array(case['P'], dtype=float).reshape(n['p'], -1) if n['p'] else np.zeros((0, pts if case['repeat_param'] else 1))
    if case['repeat_param'] and n['p']:
        k = case['pk']
        if case['ptie'] == 'equal':
            P = np.repeat(P[:, :1], pts, axis=1)
        elif case['ptie'] == 'one':
            P = np.repeat(P[:, :1], pts, axis=1)
            P[k % n['p'], k % pts] += 1.0
        elif case['ptie'] == 'blocks':
            P = np.repeat(P[:, :1], pts, axis=1)
            P[k % n['p']] += np.repeat(np.arange(N), M)
    v = {'x': np.array(case['x']).reshape(n['x'], N + 1), 'K': np.array(case['K']).reshape(n['x'], pts),
         'Z': np.array(case['Z'], dtype=float).reshape(n['z'], pts), 'u': np.array(case['u'], dtype=float).reshape(n['u'], N),
         'p': P}
    return v


def reference(case, v):
    """Everything the scheme defines, by an independent transcription."""
    m, t, M = case['model'], case['t'], case['order']
    N = len(t) - 1
    A, b, c = daegen.tableau(M, 'legendre' if case['method'] == 'default' else case['method'])
    n = m['n']
    X = np.zeros((n['x'], N * M))
    xf = np.zeros((n['x'], N))
    tc = np.zeros(N * M)
    R = np.zeros((n['x'] + n['z'], N * M))
    RM = np.zeros_like(R)
    qd = np.zeros((len(m['quad']), N * M))
    QM = np.zeros_like(qd)
    for i in range(N):
        h = t[i + 1] - t[i]
        Ki = v['K'][:, i * M:(i + 1) * M]
        X[:, i * M:(i + 1) * M] = v['x'][:, i:i + 1] + h * Ki.dot(A.T)
        xf[:, i] = v['x'][:, i] + h * Ki.dot(b)
        tc[i * M:(i + 1) * M] = t[i] + h * c
        for k in range(i * M, (i + 1) * M):
            s = {'x': X[:, k], 'xd': v['K'][:, k], 'z': v['Z'][:, k], 'u': v['u'][:, i],
                 'p': v['p'][:, k if case['repeat_param'] else 0], 't': tc[k], 'd': daegen.tdp_value(m, tc[k])}
            R[:, k], RM[:, k] = daegen.residual(m, s)
            qd[:, k], QM[:, k] = daegen.evs(m['quad'], s)
    scale = 1 + np.max(np.abs(v['x'])) + (t[-1] - t[0]) * (np.max(np.abs(v['K'])) + 1)
    q = np.zeros((len(m['quad']), N + 1))
    Q = np.zeros_like(qd)
    for i in range(N):
        h = t[i + 1] - t[i]
        w = qd[:, i * M:(i + 1) * M]
        Q[:, i * M:(i + 1) * M] = q[:, i:i + 1] + h * w.dot(A.T)
        q[:, i + 1] = q[:, i] + h * w.dot(b)
    qs = 1 + (t[-1] - t[0] + 1) * (np.max(QM) if QM.size else 0.0)
    return {'X': X, 'xf': xf, 'tc': tc, 'R': R, 'RM': RM, 'quad': qd, 'q': q, 'Q': Q, 'scale': scale, 'qscale': qs,
            'QM': QM}


def function(sch, outs):
    return cut('Function of the scheme variables', cs.Function, 'f', [sch.x, sch.K, sch.Z, sch.u, sch.p], outs)


def call(f, v):
    r = cut('evaluation of the scheme', f.call, [daegen.dm(v[k], *v[k].shape) for k in ('x', 'K', 'Z', 'u', 'p')])
    return [num('value', a) for a in r]


def check(case, info):
    m = case['model']
    N, M, n = len(case['t']) - 1, case['order'], m['n']
    dae, s, kw = cut('DAE construction', daegen.build, m)
    v = values(case)
    ref = reference(case, v)
    for mode, expand in ((case['mode'], case['expand']), (case['mode2'], None)):
        sch = make(case, dae, mode, expand)
        eq = sch.eq
        require(list(eq.keys())[:2] == ['collocation', 'continuity'], 'equation groups %s', list(eq.keys()))
        f = function(sch, [eq['collocation'], eq['continuity'], eq['param'], eq.cat])
        col, con, par, cat = call(f, v)
        require(col.shape == ref['R'].shape, '%s: collocation residual shape %s, expected %s', mode, col.shape, ref['R'].shape)
        require_close('%s: collocation residual' % mode, col, ref['R'], TOL * (1 + ref['RM']) * (1 + ref['scale']))
        require_close('%s: continuity residual' % mode, con, ref['xf'] - v['x'][:, 1:], TOL * ref['scale'])
        if case['repeat_param'] and n['p'] and N * M > 1:
            tied = bool(np.all(v['p'] == v['p'][:, :1]))
            require(bool(np.all(par == 0)) == tied, 'parameter residual %s for per-point parameters that are %s', par,
                    'equal' if tied else 'different')
            info.label('per-point parameters ' + ('equal' if tied else 'different'))
        else:
            require(par.size == 0 or bool(np.all(par == 0)), 'parameter residual %s without per-point parameters', par)
        require_equal('%s: flat equation vector' % mode, cat.ravel(),
                      np.concatenate([a.ravel(order='F') for a in (col, con, par)]))
        info.label('mode ' + mode)
    exprs = [e for k in ('ode', 'alg', 'dae') for e in m.get(k, [])]
    kinds = sum(daegen.uses(exprs, k) for k in ('x', 'z', 'u', 'p', 'd', 'xd', 't'))
    info.hit(kinds >= 2 and N * M >= 2)
    for k in ('z', 'u', 'p', 'd', 't'):
        if daegen.uses(exprs, k):
            info.label('uses ' + k)
    info.label('implicit' if m['implicit'] else 'semi-explicit')
