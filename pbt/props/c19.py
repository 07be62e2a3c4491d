import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
from base import cut, rejects, require, require_equal, require_close, num
from props import c18

RULE = ('case = DAE with quadratures, time grid, order, method and random values for every scheme variable; states, '
        'inputs, times, quadratures and the trajectory compared with a numpy transcription; non-trivial = at least 2 '
        'collocation points and a quadrature or at least 2 intervals')
BUDGET = {'quick': 4000, 'thorough': 40000}
TOL = 1e-8
PARTS = ['K', 'x', 'Z', 'U', 'u', 'p', 'eq', 'q']


def strategy(tier):
    return st.tuples(c18.scheme_case(max_intervals=5), st.lists(st.sampled_from(PARTS), min_size=1, max_size=8, unique=True),
                     st.sampled_from(['X', 'z', '', 'foo', 'k'])
                     ).map(lambda a: dict(a[0], combine=a[1], badpart=a[2]))


def corpus(tier):
    for c in c18.corpus(tier):
        yield dict(c, combine=['x', 'K', 'Z', 'U'], badpart='foo')


def check(case, info):
    m = case['model']
    N, M, n = len(case['t']) - 1, case['order'], m['n']
    dae, s, kw = cut('DAE construction', daegen.build, m)
    v = c18.values(case)
    ref = c18.reference(case, v)
    sch = c18.make(case, dae, case['mode'], case['expand'])
    info.hit(N * M >= 2 and (len(m['quad']) > 0 or N >= 2))
    info.label('nq=%d' % len(m['quad']), case['method'], 'order=%d' % M)

    require_equal('interval times', num('t', sch.t), np.array(case['t']))
    big = max(1.0, max(abs(x) for x in case['t']))
    require_close('collocation times', num('tc', sch.tc), ref['tc'], 1e-13 * big)
    require(sch.numTotalCollocationPoints == N * M, 'numTotalCollocationPoints %s', sch.numTotalCollocationPoints)

    shapes = {'x': (n['x'], N + 1), 'K': (n['x'], N * M), 'xdot': (n['x'], N * M), 'X': (n['x'], N * M), 'Z': (n['z'], N * M),
              'u': (n['u'], N), 'U': (n['u'], N * M), 'q': (len(m['quad']), N + 1), 'Q': (len(m['quad']), N * M),
              'quad': (len(m['quad']), N * M)}
    for k, shp in shapes.items():
        require(tuple(getattr(sch, k).shape) == shp, '%s has shape %s, expected %s', k, getattr(sch, k).shape, shp)

    f = c18.function(sch, [sch.X, sch.U, sch.q, sch.Q, sch.quad, sch.xdot])
    X, U, q, Q, quad, xdot = c18.call(f, v)
    require_close('state at collocation points', X, ref['X'], TOL * ref['scale'])
    require_equal('input at collocation points', U, np.repeat(v['u'], M, axis=1))
    require_equal('state derivative', xdot, v['K'])
    qtol = TOL * ref['qscale'] * (1 + ref['scale'])
    require_close('quadrature rate', quad, ref['quad'], TOL * (1 + ref['QM']) * (1 + ref['scale']))
    require_close('quadrature state at interval ends', q, ref['q'], qtol)
    require_close('quadrature state at collocation points', Q, ref['Q'], qtol)

    bt = sch.butcher
    A, b, c = daegen.tableau(M, 'legendre' if case['method'] == 'default' else case['method'])
    require_close('scheme tableau A', num('A', bt.A), A, 1e-9)
    require_close('scheme tableau b', num('b', bt.b), b, 1e-9)

    # combine
    w = cut('combine', sch.combine, list(case['combine']))
    require(list(w.keys()) == case['combine'], 'combine(%s) has keys %s', case['combine'], list(w.keys()))
    part = {'K': v['K'], 'x': v['x'], 'Z': v['Z'], 'U': np.repeat(v['u'], M, axis=1), 'u': v['u'], 'p': v['p']}
    outs = c18.call(c18.function(sch, [w[k] for k in case['combine']] + [w.cat]), v)
    flat = []
    for k, val in zip(case['combine'], outs):
        if k in part:
            require_equal('combined %s' % k, val, part[k])
        elif k == 'q':
            require_close('combined q', val, ref['q'], qtol)
        flat.append(val.ravel(order='F'))
    require_equal('combined vector', outs[-1].ravel(), np.concatenate(flat))
    rejects('combine([%r])' % case['badpart'], sch.combine, ['x', case['badpart']])

    # numeric evaluation and trajectory
    xd, Kd = daegen.dm(v['x'], n['x'], N + 1), daegen.dm(v['K'], n['x'], N * M)
    require_close('evalX', num('evalX', cut('evalX', sch.evalX, xd, Kd)), ref['X'], TOL * ref['scale'])
    pp = cut('piecewisePolyX', sch.piecewisePolyX, xd, Kd)
    require_equal('trajectory bounds', num('intervals', pp.intervals), np.array(case['t']))
    ttol = 1e-6 * ref['scale']
    got = num('trajectory', cut('trajectory', pp, np.array(case['t'][:-1])))
    require_close('trajectory at interval starts', got, v['x'][:, :-1], ttol)
    got = num('trajectory', cut('trajectory', pp, np.array(case['t'][1:]), continuity='left'))
    require_close('trajectory at interval ends', got, ref['xf'], ttol)
    # Radau has a collocation point at the interval end, where the left piece counts
    got = num('trajectory', cut('trajectory', pp, ref['tc'], continuity='left'))
    safe = np.abs(ref['tc'][:, None] - np.array(case['t'])[None, :]).min(axis=1) > 1e-9 * big
    require_close('trajectory at collocation points', got[:, safe], ref['X'][:, safe], ttol)
    hmin = min(np.diff(case['t']))
    got = num('trajectory derivative', cut('trajectory derivative', pp.derivative(), ref['tc'], continuity='left'))
    require_close('trajectory derivative at collocation points', got[:, safe], v['K'][:, safe],
                  1e-6 * ref['scale'] * (1 + 1.0 / hmin))
