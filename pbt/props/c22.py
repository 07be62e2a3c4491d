import numpy as np
from hypothesis import strategies as st

import casadi as cs
import daegen
import gen
from base import cut, require, require_equal, require_close, num
from props import c20, c21

RULE = ('case = regular random DAE (all variants of C20) or a problem with a known polynomial solution, integrated with '
        'integrate(); the returned trajectory is compared with the discrete outputs and, where known, the true solution; '
        'non-trivial = at least 2 intervals or at least 2 collocation points')
BUDGET = {'quick': 3000, 'thorough': 30000}
TOL = 1e-6


def strategy(tier):
    q = st.integers(-4, 4).map(lambda k: k / 4.0)

    @st.composite
    def poly(draw):
        order = draw(st.sampled_from([1, 2, 3, 4, 6, 9]))
        nx = draw(st.integers(1, 3))
        return {'kind': 'poly', 'order': order, 't': draw(daegen.short_grid()), 'method': draw(st.sampled_from(['legendre', 'radau'])),
                'implicit': draw(st.booleans()), 'g': draw(gen.matrix(nx, draw(st.integers(0, order)) + 1, q)),
                'q': draw(st.lists(st.floats(0, 1), min_size=1, max_size=5))}
    return st.one_of(daegen.ivp().map(lambda c: dict(c, kind='ivp')), daegen.ivp().map(lambda c: dict(c, kind='ivp')), poly())


def corpus(tier):
    for c in c20.corpus(tier):
        yield dict(c, kind='ivp')
        yield dict(c, kind='ivp', call='pos')


def check(case, info):
    t, M = case['t'], case['order']
    N = len(t) - 1
    info.hit(N >= 2 or M >= 2)
    info.label(case['kind'], 'order=%d' % M)
    if case['kind'] == 'ivp':
        dae, s, kw = cut('DAE construction', daegen.build, case['model'])
        I = cut('integrator construction', daegen.integrator, case, dae)
        out = cut('integrate', daegen.run, case, I, integrate=True)
        require('x_traj' in out, 'integrate() returned no x_traj')
        g = c20.solution_check(case, out, info, 'integrate')
        method = 'legendre' if case['method'] == 'default' else case['method']
    else:
        method = case['method']
        T0, T = t[0], t[-1] - t[0]
        nx = len(case['g'])
        x, ts = cs.MX.sym('x', nx), cs.MX.sym('t')
        s = (ts - T0) / T
        gp = cs.vertcat(*[c21.polyval(c, s) for c in case['g']]) + 0 * ts
        gd = cs.vertcat(*[c21.polyval(c21.polyder(c), s) / T for c in case['g']]) + 0 * ts
        dae = c21.make(case, x=x, t=ts, ode=gd + 0.5 * cs.sin(x - gp))
        I = c21.integ(case, dae)
        out = cut('integrate', lambda: I.integrate(x0=[c21.polyval(c, 0.0) for c in case['g']]))
        require('x_traj' in out, 'integrate() returned no x_traj')
        g = {k: num(k, out[k]) for k in ('x', 'X', 'K', 'tc')}
    tr = out['x_traj']
    scale = 1 + max(np.max(np.abs(g['x'])), np.max(np.abs(g['X'])))
    A, b, c = daegen.tableau(M, method)
    tc = np.hstack([t[i] + (t[i + 1] - t[i]) * c for i in range(N)])
    require_equal('trajectory bounds', num('intervals', tr.intervals), np.array(t))
    for side in ('right', 'left'):
        got = num('trajectory', cut('trajectory', tr, np.array(t), continuity=side))
        require_close('trajectory at interval ends (%s)' % side, got, g['x'], TOL * scale)
    got = num('trajectory', cut('trajectory', tr, tc))
    require_close('trajectory at collocation points', got, g['X'], TOL * scale)
    inner = np.abs(tc[:, None] - np.array(t)[None, :]).min(axis=1) > 1e-9 * max(1.0, max(abs(v) for v in t))
    if np.any(inner):
        got = num('trajectory derivative', cut('trajectory derivative', tr.derivative(), tc[inner]))
        kscale = 1 + np.max(np.abs(g['K'])) + scale / min(np.diff(t))
        require_close('trajectory derivative at collocation points', got, g['K'][:, inner], TOL * kscale)
    if not np.all(inner):
        # Radau: derivative from the left at interval ends
        e = tr.derivative()
        h = np.array(t[1:])
        got = num('trajectory derivative', cut('trajectory derivative', e, h, continuity='left'))
        kscale = 1 + np.max(np.abs(g['K'])) + scale / min(np.diff(t))
        require_close('trajectory derivative at interval ends', got, g['K'][:, M - 1::M], TOL * kscale)
    # interval polynomials and samples of the trajectory
    for i in range(N):
        h = t[i + 1] - t[i]
        ps = cut('poly(%d)' % i, tr.poly, i)
        require(len(ps) == len(g['x']), 'poly(%d) returned %d polynomials for %d states', i, len(ps), len(g['x']))
        if M <= 5:
            got = np.array([[float(num('poly', f(v))) for v in [0.0, h] + list(h * c)] for f in ps])
            exp = np.hstack([g['x'][:, i:i + 2], g['X'][:, i * M:(i + 1) * M]])
            require_close('polynomials of interval %d' % i, got, exp, TOL * scale)
    xs, ys = cut('discretize', tr.discretize, (t[-1] - t[0]) / 7.0)
    xs, ys = num('points', xs), num('values', ys)
    require(ys.shape == (len(g['x']), xs.size), 'discretize returned shapes %s and %s', xs.shape, ys.shape)
    require_close('first and last sample', ys[:, [0, -1]], g['x'][:, [0, -1]], TOL * scale)
    require_close('samples', ys, num('trajectory', cut('trajectory', tr, xs)), TOL * scale)
    if case['kind'] == 'poly':
        pts = np.array([T0 + v * T for v in case['q']])
        ex = np.array([[c21.polyval(cc, (p - T0) / T) for p in pts] for cc in case['g']])
        got = num('trajectory', cut('trajectory', tr, pts))
        require_close('trajectory of a polynomial solution', got, ex, TOL * (1 + sum(abs(a) for r in case['g'] for a in r)))
