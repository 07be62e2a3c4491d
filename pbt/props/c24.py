import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
import gen
from base import cut, require, require_close, num
from casadi_extras import SemiExplicitDae

RULE = ('case = DAE with random equations, one point (values for every variable), selections and orders of function inputs '
        'and outputs; non-trivial = the equations use at least two kinds of variables')
BUDGET = {'quick': 6000, 'thorough': 80000}
TOL = 1e-9


def mats():
    side = st.integers(1, 4)
    return st.one_of(st.none(), st.fixed_dictionaries({
        k: st.tuples(side, side).map(list) for k in ('p', 'tdp', 'quad')}))


def check_mats(case, info):
    """Parameters, time-dependent parameters and quadratures may have any shape."""
    sh = case['mats']
    x = cs.MX.sym('x', 2)
    p, d = cs.MX.sym('p', *sh['p']), cs.MX.sym('d', *sh['tdp'])
    r, c = sh['quad']

    def element(i, j, p, d, x):
        return p[i % sh['p'][0], j % sh['p'][1]] * (1 + i + 10 * j) + d[j % sh['tdp'][0], i % sh['tdp'][1]] * x[j % 2]

    quad = cs.vertcat(*[cs.horzcat(*[element(i, j, p, d, x) for j in range(c)]) for i in range(r)])
    dae = cut('DAE with matrices', SemiExplicitDae, x=x, p=p, tdp=d, ode=cs.vertcat(x[1] * p[0], d[0, 0] - x[0]), quad=quad)
    vp, vd = 1.0 + np.arange(p.numel()).reshape(p.shape) ** 2, 0.5 - np.arange(d.numel()).reshape(d.shape)
    vx = np.array([2.0, -3.0])
    want = np.array([[element(i, j, vp, vd, vx) for j in range(c)] for i in range(r)])
    for what, m in (('model', dae), ('implicit form', cut('makeImplicit', dae.makeImplicit))):
        require((m.np, m.ntdp, m.nq) == (p.numel(), d.numel(), r * c), '%s: sizes %s', what, (m.np, m.ntdp, m.nq))
        f = cut('%s: createFunction' % what, m.createFunction, case['name'], ['tdp', 'x', 'p'], ['quad'])
        require([f.size_in(k) for k in range(3)] == [tuple(sh['tdp']), (2, 1), tuple(sh['p'])], '%s: input shapes %s', what,
                [f.size_in(k) for k in range(3)])
        require(f.size_out(0) == (r, c), '%s: shape of quad %s, expected %s', what, f.size_out(0), (r, c))
        got = cut('%s: evaluation' % what, f, cs.DM(vd), cs.DM(vx), cs.DM(vp))
        require_close('%s: matrix-valued quad' % what, num('quad', got).reshape(r, c), want, TOL * 1e3)
    info.label('matrix shapes')


def strategy(tier):
    @st.composite
    def case(draw):
        m = draw(daegen.model())
        n = m['n']
        v = gen.val(-3, 3)
        pt = {k: draw(st.lists(v, min_size=n[k], max_size=n[k])) for k in ('x', 'z', 'u', 'p', 'd')}
        pt['xd'] = draw(st.lists(v, min_size=n['x'], max_size=n['x']))
        pt['t'] = draw(v)
        outs = ['dae', 'quad'] if m['implicit'] else ['ode', 'alg', 'quad']
        return {'model': m, 'pt': pt, 'perm': draw(st.permutations(range(7))),
                'outs': draw(st.lists(st.sampled_from(outs), min_size=1, max_size=3, unique=True)),
                'iouts': draw(st.lists(st.sampled_from(['dae', 'quad']), min_size=1, max_size=3, unique=True)),
                'drop': draw(st.booleans()), 'name': draw(st.sampled_from(['f', 'dae_fun', 'model1'])),
                'kwcall': draw(st.booleans()), 'mats': draw(mats())}
    return case()


def corpus(tier):
    from props import c18
    base = next(iter(c18.corpus(tier)))['model']
    pt = {'x': [1.0, -2.0], 'z': [0.5], 'u': [3.0], 'p': [-1.5], 'd': [0.25], 'xd': [0.75, 2.0], 't': 1.25}
    for perm in ([0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [3, 1, 0, 2, 6, 4, 5]):
        yield {'model': base, 'pt': pt, 'perm': perm, 'outs': ['quad', 'ode', 'alg'], 'iouts': ['quad', 'dae'], 'drop': False,
               'name': 'f', 'kwcall': False, 'mats': {'p': [2, 3], 'tdp': [1, 2], 'quad': [3, 2]}}


KEY = {'x': 'x', 'z': 'z', 'u': 'u', 'p': 'p', 'tdp': 'd', 't': 't', 'xdot': 'xd'}


def expected(m, pt, o):
    if o in ('ode', 'alg', 'quad'):
        return daegen.evs(m[o], pt)
    return daegen.residual(m, pt)


def needed(m, outs):
    """Which inputs the outputs use."""
    use = set()
    for o in outs:
        es = m.get(o) if o != 'dae' or m['implicit'] else m['ode'] + m['alg']
        for k, v in KEY.items():
            if daegen.uses(es, v):
                use.add(k)
        if o == 'dae':
            use.add('xdot')
    return use


def evaluate(what, dae, m, pt, ins, outs, case):
    f = cut('%s: createFunction(%s, %s)' % (what, ins, outs), dae.createFunction, case['name'], list(ins), list(outs))
    require(f.name() == case['name'], 'function name %s', f.name())
    require(list(f.name_in()) == list(ins), 'function inputs %s, expected %s', f.name_in(), ins)
    require(list(f.name_out()) == list(outs), 'function outputs %s, expected %s', f.name_out(), outs)
    args = {k: daegen.dm(pt[KEY[k]], 1 if k == 't' else len(pt[KEY[k]]), 1) for k in ins}
    if case['kwcall']:
        r = cut('%s: evaluation' % what, lambda: f(**args))
    else:
        r = dict(zip(outs, cut('%s: evaluation' % what, f.call, [args[k] for k in ins])))
    for o in outs:
        ex, mag = expected(m, pt, o)
        got = num(o, r[o]).reshape(-1)
        require(got.shape == ex.shape, '%s: output %s has %s elements, expected %s', what, o, got.shape, ex.shape)
        require_close('%s: output %s' % (what, o), got, ex, TOL * (1 + mag))


def check(case, info):
    m, pt = case['model'], case['pt']
    dae, s, kw = cut('DAE construction', daegen.build, m)
    names = ['x', 'z', 'u', 'p', 't', 'tdp', 'xdot']
    order = [names[i] for i in case['perm']]

    def inputs(outs, implicit):
        ins = [k for k in order if implicit or k != 'xdot']
        if case['drop']:
            use = needed(m, outs)
            ins = [k for k in ins if k in use]
        return ins

    evaluate('model', dae, m, pt, inputs(case['outs'], m['implicit']), case['outs'], case)
    imp = cut('makeImplicit', dae.makeImplicit)
    evaluate('implicit form', imp, m, pt, inputs(case['iouts'], True), case['iouts'], case)
    for k in ('x', 'z', 'u', 'p', 't', 'tdp', 'quad'):
        a, b = getattr(dae, k), getattr(imp, k)
        require(a is b or (isinstance(a, cs.MX) and isinstance(b, cs.MX) and cs.is_equal(a, b, 0)),
                'implicit form changes %s', k)
    if m['implicit']:
        require(cs.is_equal(imp.xdot, dae.xdot, 0), 'implicit form of an implicit model changes xdot')
    imp2 = cut('makeImplicit', imp.makeImplicit)
    evaluate('implicit form of the implicit form', imp2, m, pt, inputs(case['iouts'], True), case['iouts'], case)
    # the original is still what it was, and a second conversion is independent
    other = cut('makeImplicit', dae.makeImplicit)
    evaluate('second implicit form', other, m, pt, inputs(['dae'], True), ['dae'], case)
    evaluate('model afterwards', dae, m, pt, inputs(case['outs'], m['implicit']), case['outs'], case)
    exprs = [e for k in ('ode', 'alg', 'dae') for e in m.get(k, [])]
    if case.get('mats'):
        check_mats(case, info)
    info.hit(sum(daegen.uses(exprs, k) for k in ('x', 'z', 'u', 'p', 'd', 'xd', 't')) >= 2)
    info.label('implicit' if m['implicit'] else 'semi-explicit', 'drop' if case['drop'] else 'all inputs')
    info.label(*['out ' + o for o in case['outs'] + case['iouts']])
