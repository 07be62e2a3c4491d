import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
from base import cut, require, require_close, num

RULE = ('case = initial value problem as in C20, with a direction; the integrator is called inside an expression, mapped over two '
        'columns of arguments and differentiated (forward and reverse), and compared with numeric calls and differences of '
        'them; non-trivial = the solution depends on the differentiated arguments')
ASSUMPTIONS = ['derivatives are compared with five-point differences of the numeric solution (1e-5 relative to the size of the '
               'solution and its derivatives)']
BUDGET = {'quick': 1600, 'thorough': 20000}
TOL = 1e-10
OUT = ['xf', 'qf', 'X', 'Z', 'Q', 'x', 'K']
IN = ['x0', 'z0', 'u', 'p']
STEP = 2.0 ** -9


def strategy(tier):
    return st.tuples(daegen.ivp(), st.lists(st.integers(-4, 4), min_size=8, max_size=8), st.sampled_from(OUT[:5]),
                     st.sampled_from(['serial', 'serial', 'unroll', 'thread'])
                     ).map(lambda a: dict(a[0], dir=a[1], of=a[2], par=a[3]))


def corpus(tier):
    from props import c20
    for k, c in enumerate(c20.corpus(tier)):
        yield dict(c, dir=[1, -2, 3, 0, 2, -1, 4, 1], of=OUT[k % 5], par='serial')


def arguments(case):
    n, N = case['model']['n'], len(case['t']) - 1
    return [daegen.dm(case['x0'], n['x'], 1), daegen.dm(case['z0'], n['z'], 1), daegen.dm(case['u'], n['u'], N),
            daegen.dm(case['p'], n['p'], 1)]


def outputs(I, res):
    out = dict(zip(I.name_out(), res))
    return [out[k] for k in OUT]


def check(case, info):
    m = case['model']
    dae, s, kw = cut('DAE construction', daegen.build, m)
    I = cut('integrator construction', daegen.integrator, case, dae)
    args = arguments(case)
    solve = lambda a: [num('output', g) for g in outputs(I, cut('integration', I.call, a))]
    base = solve(args)
    scale = 1 + max([np.max(np.abs(g)) for g in base if g.size])
    require(np.isfinite(scale), 'non-finite result')

    # inside an expression
    syms = [cs.MX.sym(k, *a.shape) for k, a in zip(IN, args)]
    if case['call'] == 'kw':
        res = cut('symbolic call', lambda: I(**dict(zip(IN, [2 * v - v for v in syms]))))
        exprs = [res[k] for k in OUT]
    else:
        exprs = outputs(I, cut('symbolic call', lambda: I(*[2 * v - v for v in syms])))
    F = cut('Function of the integrator', cs.Function, 'F', syms, exprs)
    for k, g, e in zip(OUT, cut('evaluation', F.call, args), base):
        require_close('%s of a symbolic call' % k, num(k, g), e, TOL * scale)

    # mapped
    other = [a + 0.25 * (k != 1) for k, a in enumerate(args)]
    second = solve(other)
    M = cut('map', I.map, 2, case['par'])
    both = outputs(I, cut('evaluation of the map', M.call, [cs.horzcat(a, b) for a, b in zip(args, other)]))
    for k, g, a, b in zip(OUT, both, base, second):
        require_close('%s of the mapped integrator' % k, num(k, g), np.hstack([a, b]), TOL * scale * 10)

    # derivatives
    d, k = [], 0
    for a in args:
        v = [case['dir'][(k + i) % 8] / 4.0 for i in range(a.numel())]
        k += a.numel()
        d.append(cs.DM(np.array(v).reshape(a.shape, order='F')) if a.numel() else a)
    at = lambda h: solve([a + h * v for a, v in zip(args, d)])
    f = {h: at(h * STEP) for h in (-2, -1, 1, 2)}
    exp = [(8 * (f[1][i] - f[-1][i]) - (f[2][i] - f[-2][i])) / (12 * STEP) for i in range(len(OUT))]
    steep = 1 + max([np.max(np.abs(e)) for e in exp if e.size])
    tol = 1e-5 * (scale + steep)
    dirs = [cs.MX.sym('d' + k, *a.shape) for k, a in zip(IN, args)]
    fwd = cut('forward derivative', lambda: cs.Function('fwd', syms + dirs, [sum_(
        cs.jtimes(e, v, w) for v, w in zip(syms, dirs) if v.numel()) for e in exprs]))
    for k, g, e in zip(OUT, cut('evaluation of the forward derivative', fwd.call, args + d), exp):
        require_close('directional derivative of %s' % k, num(k, g), e, tol)
    i = OUT.index(case['of'])
    if base[i].size:
        w = np.array([case['dir'][(3 * j + 1) % 8] / 4.0 for j in range(base[i].size)]).reshape(base[i].shape, order='F')
        val = cs.sum1(cs.vec(exprs[i] * cs.DM(w)))
        rev = cut('reverse derivative', lambda: cs.Function('rev', syms, [cs.gradient(val, v) for v in syms if v.numel()]))
        g = [num('gradient', a) for a in cut('evaluation of the reverse derivative', rev.call, args)]
        got = sum(float(np.sum(a * num('d', b))) for a, b in zip(g, [b for b in d if b.numel()]))
        require_close('gradient of %s along the direction' % case['of'], np.array([got]), np.array([np.sum(w * exp[i])]), tol * (1 + base[i].size))
    info.hit(steep > 1.01)
    info.label('implicit' if m['implicit'] else 'semi-explicit', 'of ' + case['of'], case['par'])


def sum_(terms):
    terms = list(terms)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r
