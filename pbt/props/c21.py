import math
from fractions import Fraction as F

import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
import gen
from base import cut, require, require_close, num
from casadi_extras.collocation import CollocationIntegrator
from casadi_extras.dae_model import ImplicitDae, SemiExplicitDae

RULE = ('case = one of: problem with known polynomial solution of degree <= n (coupled, forced); pure quadrature of degree up '
        'to 2n-1 / 2n-2; linear system against the Pade stability function; nonlinear problems with closed-form solution '
        'against the order bound; random DAE split into chained integrators / shifted in time / refined grid; '
        'non-trivial = every case except a single interval of order 1 with constant solution')
ASSUMPTIONS = ['order bound on nonlinear problems uses a fixed generous constant: error <= 20 N (rh)^order']
BUDGET = {'quick': 4000, 'thorough': 40000}
TOL = 1e-7


def strategy(tier):
    q = st.integers(-4, 4).map(lambda k: k / 4.0)

    @st.composite
    def common(draw):
        order = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 6, 9]))
        t = draw(daegen.short_grid(max_intervals=5))
        return {'order': order, 't': t[:3] if order > 5 else t, 'method': draw(st.sampled_from(['legendre', 'radau'])),
                'implicit': draw(st.booleans())}

    @st.composite
    def poly(draw):
        c = draw(common())
        nx = draw(st.integers(1, 3))
        deg = draw(st.integers(0, c['order']))
        c.update(kind='poly', g=draw(gen.matrix(nx, deg + 1, q)), L=draw(gen.matrix(nx, nx, q)),
                 nl=draw(st.booleans()), split=draw(st.integers(0, 3)))
        return c

    @st.composite
    def quad(draw):
        c = draw(common())
        if draw(st.booleans()):
            c.update(order=draw(st.integers(1, 9)), t=[c['t'][0], c['t'][0] + draw(st.sampled_from([0.5, 1.0, 3.0]))])
        elif draw(st.booleans()):
            c['t'] = [0.0, 1.0, 2.0, 5.0, 6.0][:draw(st.integers(2, 5))]
        c['t_as'] = draw(st.sampled_from(gen.GRID_AS))
        top = 2 * c['order'] - (1 if c['method'] == 'legendre' else 2)
        deg = draw(st.sampled_from([top, top, max(0, top - 1), top // 2]))
        c.update(kind='quad', f=draw(gen.matrix(draw(st.integers(1, 2)), deg + 1, q)), as_state=draw(st.booleans()))
        return c

    @st.composite
    def linear(draw):
        c = draw(common())
        nx = draw(st.integers(1, 3))
        c.update(kind='linear', A=draw(gen.matrix(nx, nx, st.integers(-8, 8).map(lambda k: k / 4.0))),
                 B=draw(gen.matrix(nx, 1, q)), u=draw(gen.matrix(1, len(c['t']) - 1, q)),
                 x0=draw(st.lists(q, min_size=nx, max_size=nx)))
        return c

    @st.composite
    def smooth(draw):
        c = draw(common())
        c.update(kind='smooth', problem=draw(st.sampled_from(['logistic', 'tan', 'time', 'rot', 'dae'])),
                 r=draw(st.floats(0.3, 1.5)), x0=draw(st.floats(0.1, 0.9)))
        return c

    @st.composite
    def compose(draw):
        c = draw(daegen.ivp(branch=False, tdp=True))
        c.update(kind='compose', cut=draw(st.integers(0, 10)), shift=draw(st.sampled_from([1.0, -0.5, 10.0])))
        return c

    return st.one_of(poly(), quad(), linear(), smooth(), compose())


def corpus(tier):
    for n in range(1, 10):
        for m in ('legendre', 'radau'):
            for imp in (False, True):
                b = {'order': n, 't': [0.25, 0.5, 1.125], 'method': m, 'implicit': imp}
                yield dict(b, kind='poly', g=[[1.0] + [0.5] * n, [-1.0] * (n + 1)], L=[[0.5, -1.0], [0.25, 0.75]], nl=True,
                           split=1)
                yield dict(b, kind='quad', f=[[0.5] * (2 * n - (0 if m == 'legendre' else 1))], as_state=imp)
                yield dict(b, kind='quad', f=[[0.0] * (2 * n - (1 if m == 'legendre' else 2)) + [1.0]], as_state=imp, t=[0.5, 1.5])
                yield dict(b, kind='linear', A=[[-1.0, 2.0], [-0.5, 0.25]], B=[[1.0], [0.5]], u=[[1.0, -0.5]], x0=[1.0, -1.0])
                for p in ('logistic', 'tan', 'time', 'rot', 'dae'):
                    yield dict(b, kind='smooth', problem=p, r=1.0, x0=0.3)


def polyval(c, s):
    v = 0.0
    for a in reversed(c):
        v = v * s + a
    return v


def polyder(c):
    return [k * a for k, a in enumerate(c)][1:] or [0.0]


def make(case, **kw):
    """The model, semi-explicit or rewritten in an implicit form with a different scaling."""
    if case['implicit']:
        kw = dict(kw)
        ode = kw.pop('ode')
        xd = cs.MX.sym('xdot', ode.shape[0])
        alg = kw.pop('alg', None)
        kw.update(xdot=xd, dae=3.0 * (ode - xd) if alg is None else cs.vertcat(3.0 * (ode - xd), alg))
        return ImplicitDae(**kw)
    return SemiExplicitDae(**kw)


def integ(case, dae, t=None):
    return cut('integrator construction', CollocationIntegrator, 'I', dae,
               gen.as_grid(case['t'] if t is None else t, case.get('t_as', 'list')), case['order'],
               method=case['method'])


def pade(A, n, m):
    """Diagonal (legendre) or subdiagonal (radau) Pade approximation of exp(A)."""
    k, l = (n, n) if m == 'legendre' else (n - 1, n)
    P = np.zeros_like(A)
    Q = np.zeros_like(A)
    pw = np.eye(len(A))
    for j in range(max(k, l) + 1):
        if j <= k:
            P = P + float(F(math.factorial(k) * math.factorial(k + l - j),
                            math.factorial(j) * math.factorial(k - j) * math.factorial(k + l))) * pw
        if j <= l:
            Q = Q + (-1) ** j * float(F(math.factorial(l) * math.factorial(k + l - j),
                                        math.factorial(j) * math.factorial(l - j) * math.factorial(k + l))) * pw
        pw = pw.dot(A)
    return np.linalg.solve(Q, P)


def check(case, info):
    info.label(case['kind'], case['method'], 'order=%d' % case['order'])
    t, n = case['t'], case['order']
    N = len(t) - 1
    info.hit(n > 1 or N > 1 or case['kind'] != 'poly')
    if case['kind'] == 'compose':
        return check_compose(case, info)
    T0, T = t[0], t[-1] - t[0]

    if case['kind'] == 'poly':
        # x' = g'(t) + L (x - g(t)) [+ products of the deviations], exact solution g(s), s = (t - t0) / T
        nx = len(case['g'])
        x, ts = cs.MX.sym('x', nx), cs.MX.sym('t')
        s = (ts - T0) / T
        g = cs.vertcat(*[polyval(c, s) for c in case['g']]) + 0 * ts
        gd = cs.vertcat(*[polyval(polyder(c), s) / T for c in case['g']]) + 0 * ts
        e = x - g
        ode = gd + cs.mtimes(cs.DM(case['L']), e)
        if case['nl']:
            ode = ode + 0.5 * cs.sin(e)
        dae = make(case, x=x, t=ts, ode=ode, quad=e * e + 1)
        x0 = [polyval(c, 0.0) for c in case['g']]
        for grid in (t, refine(t, case['split'])):
            I = integ(case, dae, grid)
            out = cut('integration', lambda: I(x0=x0))
            tc = num('tc', out['tc']).ravel()
            scale = 1 + sum(abs(a) for c in case['g'] for a in c)
            for name, pts, got in (('x', np.array(grid), out['x']), ('X', tc, out['X']), ('xf', np.array(grid[1:]), out['xf'])):
                ex = np.array([[polyval(c, (p - T0) / T) for p in pts] for c in case['g']])
                require_close('%s for a polynomial solution of degree %d' % (name, len(case['g'][0]) - 1), num(name, got), ex,
                              TOL * scale)
            ex = np.array([[polyval(polyder(c), (p - T0) / T) / T for p in tc] for c in case['g']])
            require_close('K for a polynomial solution', num('K', out['K']), ex, TOL * scale * 10 / T / min(1, T))
            require_close('quadrature of 1', num('qf', out['qf']).ravel(), np.full(nx, T), TOL * (1 + T))
    elif case['kind'] == 'quad':
        ts = cs.MX.sym('t')
        s = (ts - T0) / T
        f = cs.vertcat(*[polyval(c, s) for c in case['f']]) + 0 * ts
        prim = [[0.0] + [a / (k + 1) for k, a in enumerate(c)] for c in case['f']]
        x = cs.MX.sym('x', len(prim))
        scale = 1 + sum(abs(a) for c in case['f'] for a in c)
        if case['as_state']:
            dae = make(case, x=x, t=ts, ode=f)
            out = cut('integration', lambda: integ(case, dae)(x0=np.ones(len(prim))))
            got = num('x', out['x']) - 1
            pts = t
        else:
            dae = make(case, x=x, t=ts, ode=-x, quad=f)
            out = cut('integration', lambda: integ(case, dae)(x0=np.ones(len(prim))))
            got = num('qf', out['qf']).reshape(len(prim), 1)
            pts = [t[-1]]
        ex = np.array([[T * polyval(c, (p - T0) / T) for p in pts] for c in prim])
        # No Newton tolerance involved: the equations are linear, so only the rounding of weights and times is left
        require_close('integral of a polynomial of degree %d' % (len(case['f'][0]) - 1), got, ex,
                      scale * (1 + T) * (1e-11 + 1e-13 * n * max(abs(v) for v in t) / T))
    elif case['kind'] == 'linear':
        A, B = np.array(case['A']), np.array(case['B'])
        nx = len(A)
        x, u = cs.MX.sym('x', nx), cs.MX.sym('u')
        dae = make(case, x=x, u=u, ode=cs.mtimes(cs.DM(A), x) + cs.DM(B) * u)
        out = cut('integration', lambda: integ(case, dae)(x0=case['x0'], u=cs.DM(case['u'])))
        got = num('x', out['x'])
        w = np.array(case['x0'], dtype=float)
        scale = 1.0
        for i in range(N):
            h = t[i + 1] - t[i]
            full = np.zeros((nx + 1, nx + 1))
            full[:nx, :nx] = A
            full[:nx, nx:] = B * case['u'][0][i]
            w = pade(h * full, n, case['method']).dot(np.append(w, 1.0))[:nx]
            scale = max(scale, np.max(np.abs(w)))
            require_close('end state of a linear system after interval %d' % i, got[:, i + 1], w, 1e-9 * scale)
    else:
        smooth(case, info)


def refine(t, k):
    if k == 0:
        return [v for a, b in zip(t, t[1:]) for v in (a, a + (b - a) * 0.5)] + [t[-1]]
    if k == 1:
        return [v for a, b in zip(t, t[1:]) for v in (a, a + (b - a) * 0.25)] + [t[-1]]
    if k == 2:
        return [t[0], t[-1]]
    return list(t)


def smooth(case, info):
    t, n, r, x0 = case['t'], case['order'], case['r'], case['x0']
    T0 = t[0]
    x, ts = cs.MX.sym('x'), cs.MX.sym('t')
    p = case['problem']
    kw = {}
    start = [x0]
    if p == 'logistic':
        kw = dict(x=x, ode=r * x * (1 - x))
        exact = lambda s: [1 / (1 + (1 / x0 - 1) * math.exp(-r * s))]
    elif p == 'tan':
        # tan(rt + phi) stays away from its pole
        r = min(r, 0.3 / max(t[-1] - t[0], 0.3))
        start = [math.tan(x0 * 0.5)]
        kw = dict(x=x, ode=r * (1 + x * x))
        exact = lambda s: [math.tan(r * s + x0 * 0.5)]
    elif p == 'time':
        kw = dict(x=x, t=ts, ode=r * cs.cos(r * (ts - T0)) * x)
        exact = lambda s: [x0 * math.exp(math.sin(r * s))]
    elif p == 'rot':
        x = cs.MX.sym('x', 2)
        start = [x0, 0.0]
        kw = dict(x=x, ode=r * cs.vertcat(x[1], -x[0]))
        exact = lambda s: [x0 * math.cos(r * s), -x0 * math.sin(r * s)]
    else:
        z = cs.MX.sym('z')
        kw = dict(x=x, z=z, ode=r * z, alg=z - x * (1 - x))
        exact = lambda s: [1 / (1 + (1 / x0 - 1) * math.exp(-r * s))]
    dae = make(case, **kw)
    args = {'x0': start}
    if p == 'dae':
        args['z0'] = 0.2
    out = cut('integration', lambda: integ(case, dae)(**args))
    got = num('x', out['x'])
    order = 2 * n if case['method'] == 'legendre' else 2 * n - 1
    hs = np.diff(t)
    acc = 0.0
    info.label('smooth ' + p)
    for i in range(1, len(t)):
        acc += 20 * (r * hs[i - 1]) ** (order + 1)
        ex = np.array(exact(t[i] - T0))
        require_close('%s: error at t=%r' % (p, t[i]), got[:, i], ex, acc + 1e-9)


def check_compose(case, info):
    m, t = case['model'], case['t']
    N, n = len(t) - 1, m['n']
    dae, s, kw = cut('DAE construction', daegen.build, m)
    I = cut('integrator construction', daegen.integrator, case, dae)
    full = cut('integration', daegen.run, case, I)
    x, qf = num('x', full['x']), num('qf', full['qf']).ravel()
    Kf = num('K', full['K'])
    scale = 1 + np.max(np.abs(x)) + np.max(np.abs(Kf))
    u = np.array(case['u'], dtype=float).reshape(n['u'], N)
    if N > 1:
        k = 1 + case['cut'] % (N - 1)
        I1 = cut('integrator construction', daegen.integrator, case, dae, t[:k + 1])
        I2 = cut('integrator construction', daegen.integrator, case, dae, t[k:])
        a = cut('integration', daegen.run, case, I1, None, u[:, :k], k)
        mid = num('xf', a['xf'])[:, -1]
        b = cut('integration', daegen.run, case, I2, mid, u[:, k:], N - k)
        require_close('states of chained integrators', np.hstack([num('x', a['x']), num('x', b['x'])[:, 1:]]), x, TOL * scale)
        require_close('quadratures of chained integrators', num('qf', a['qf']).ravel() + num('qf', b['qf']).ravel(), qf,
                      TOL * scale * (1 + (np.max(np.abs(qf)) if qf.size else 0)))
        info.label('chained')
    eqs = [e for key in ('ode', 'alg', 'dae', 'quad') for e in m.get(key, [])]
    if not daegen.uses(eqs, 't') and not m.get('tdp'):
        sh = [v + case['shift'] for v in t]
        I3 = cut('integrator construction', daegen.integrator, case, dae, sh)
        c = cut('integration', daegen.run, case, I3)
        require_close('states after a time shift', num('x', c['x']), x, TOL * scale)
        require_close('quadratures after a time shift', num('qf', c['qf']).ravel(), qf, TOL * scale * 10)
        info.label('shifted')
