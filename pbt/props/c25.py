import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
import gen
from base import cut, require, require_equal, require_close, num
from casadi_extras.dae_model import parallel
from props import c20

RULE = ('case = list of 1-4 autonomous semi-explicit models of different sizes (parts omitted or empty, symbols or structs), '
        'a point, and an initial value problem; the combined model is compared part by part, evaluated and integrated; '
        'non-trivial = at least 2 models')
BUDGET = {'quick': 2400, 'thorough': 24000}
TOL = 1e-7


def strategy(tier):
    @st.composite
    def case(draw):
        k = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 4]))
        v = gen.val(-2, 2)
        parts = []
        t = draw(daegen.short_grid(max_intervals=3))
        models = [draw(daegen.regular(autonomous=True, implicit=False, tdp=False)) for _ in range(k)]
        if any(m['branch'] for m in models):
            t = t[:4]
        for m in models:
            n = m['n']
            z0 = draw(st.lists(v, min_size=n['z'], max_size=n['z']))
            for i in m['branches']:
                z0[i] = draw(st.sampled_from([-1.4, 1.4]))
            parts.append({'model': m, 'x0': draw(st.lists(v, min_size=n['x'], max_size=n['x'])), 'z0': z0,
                          'u': draw(gen.matrix(n['u'], len(t) - 1, v)),
                          'p': draw(st.lists(v, min_size=n['p'], max_size=n['p']))})
        return {'parts': parts, 't': t, 'order': draw(st.sampled_from([1, 2, 3, 4])),
                'method': draw(st.sampled_from(['legendre', 'radau'])), 'tuple': draw(st.booleans()),
                'integrate': draw(st.booleans())}
    return case()


def corpus(tier):
    def part(nx, k):
        m = {'n': {'x': nx, 'z': k % 2, 'u': 1, 'p': 1, 'd': 0}, 'implicit': False, 'omit': True, 't': False, 'structs': [],
             'branch': False, 'ode': [['-', ['*', ['p', 0], ['u', 0]], ['x', (i + 1) % nx]] for i in range(nx)],
             'alg': [['-', ['z', 0], ['x', 0]]] * (k % 2), 'quad': [['x', 0]] * (k + 1)}
        return {'model': m, 'x0': [1.0 + i - k for i in range(nx)], 'z0': [0.5] * (k % 2), 'u': [[1.0, -1.0 - k]], 'p': [0.5 + k]}
    for k in (1, 2, 3, 11):
        yield {'parts': [part(1 + i % 2, i % 3) for i in range(k)], 't': [0.0, 0.25, 0.75], 'order': 2, 'method': 'legendre',
               'tuple': False, 'integrate': True}


def check(case, info):
    parts = case['parts']
    info.hit(len(parts) >= 2)
    info.label('%d models' % len(parts))
    models = [cut('DAE construction', daegen.build, p['model'])[0] for p in parts]
    both = cut('parallel', parallel, tuple(models) if case['tuple'] else models)

    size = lambda k: sum(p['model']['n'][k] for p in parts)
    nq = sum(len(p['model']['quad']) for p in parts)
    for attr, val in (('nx', size('x')), ('nz', size('z')), ('nu', size('u')), ('np', size('p')), ('nq', nq)):
        require(getattr(both, attr) == val, 'combined %s = %s, expected %d', attr, getattr(both, attr), val)

    # variables are those of the parts, addressable per model
    f = []
    for k in ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad'):
        st_ = getattr(both, k)
        require(list(st_.keys()) == ['model_%d' % i for i in range(len(parts))], 'keys of combined %s: %s', k, list(st_.keys()))
        f += [st_['model_%d' % i] for i in range(len(parts))]
        f.append(st_.cat)
    pt = []
    for p in parts:
        m = p['model']
        pt.append({'x': p['x0'], 'z': p['z0'], 'u': [r[0] for r in p['u']], 'p': p['p'], 't': 0.0, 'd': []})
    stack = lambda key: np.concatenate([np.array(q[key], dtype=float).ravel() for q in pt]) if pt else np.zeros(0)
    ins = [both.x, both.z, both.u, both.p]
    F = cut('Function of the combined model', cs.Function, 'F', ins, f)
    args = [daegen.dm(stack(k), len(stack(k)), 1) for k in ('x', 'z', 'u', 'p')]
    out = [num('value', a).ravel() for a in cut('evaluation of the combined model', F.call, args)]
    pos = 0
    for k in ('x', 'z', 'u', 'p', 'ode', 'alg', 'quad'):
        exp = []
        for i, p in enumerate(parts):
            m = p['model']
            if k in ('ode', 'alg', 'quad'):
                ex, mag = daegen.evs(m[k], pt[i])
            else:
                ex = np.array(pt[i][k], dtype=float).ravel()
                mag = np.abs(ex)
            require(out[pos].shape == ex.shape, '%s of model %d has %s elements', k, i, out[pos].shape)
            require_close('%s of model %d' % (k, i), out[pos], ex, 1e-9 * (1 + mag))
            exp.append(ex)
            pos += 1
        require_close('stacked %s' % k, out[pos], np.concatenate(exp), 1e-8 * (1 + np.abs(np.concatenate(exp))))
        pos += 1

    # used like any semi-explicit model
    cut('createFunction', both.createFunction, 'g', ['x', 'z', 'u', 'p', 't'], ['ode', 'alg', 'quad'])
    cut('makeImplicit', both.makeImplicit)
    if not case['integrate']:
        return
    info.label('integrated')
    N = len(case['t']) - 1
    n = {k: size(k) for k in ('x', 'z', 'u', 'p')}
    from casadi_extras.collocation import CollocationIntegrator
    I = cut('integrator construction', CollocationIntegrator, 'I', both, case['t'], case['order'], method=case['method'])
    cat = lambda key: np.concatenate([np.array(p[key], dtype=float).ravel() for p in parts])
    u = np.vstack([np.array(p['u'], dtype=float).reshape(-1, N) for p in parts])
    res = cut('integration', lambda: I(x0=daegen.dm(cat('x0'), n['x'], 1), z0=daegen.dm(cat('z0'), n['z'], 1),
                                       u=daegen.dm(u, n['u'], N), p=daegen.dm(cat('p'), n['p'], 1)))
    g = {k: num(k, res[k]) for k in ('x', 'K', 'Z', 'qf', 'Q')}
    ix = iz = iq = 0
    for i, (p, d) in enumerate(zip(parts, models)):
        m = p['model']
        c = dict(p, t=case['t'], order=case['order'], method=case['method'], t_as='list', tdp_as='numpy', factory=False, call='kw')
        Ii = cut('integrator construction', daegen.integrator, c, d)
        r = cut('integration of model %d alone' % i, daegen.run, c, Ii)
        nx, nz, q = m['n']['x'], m['n']['z'], len(m['quad'])
        scale = 1 + np.max(np.abs(num('x', r['x']))) + np.max(np.abs(num('K', r['K'])))
        for k, a, b in (('x', ix, nx), ('K', ix, nx), ('Z', iz, nz), ('Q', iq, q)):
            require_close('%s of model %d in the combined solution' % (k, i), g[k][a:a + b], num(k, r[k]), TOL * scale * 10)
        require_close('quadrature of model %d' % i, g['qf'].ravel()[iq:iq + q], num('qf', r['qf']).ravel(), TOL * scale * 10)
        ix, iz, iq = ix + nx, iz + nz, iq + q
