import casadi as cs
import numpy as np
from hypothesis import strategies as st

import daegen
from base import cut, rejects, require
import casadi_extras as ce
from casadi_extras.dae_model import Dae, ImplicitDae, SemiExplicitDae

RULE = ('case = a DAE declaration: class, sizes, which optional parts are given, how each variable is represented (symbol, '
        'struct, stacked symbols), and at most one defect from a list; non-trivial = any case with a defect or with at least '
        'two optional parts given')
BUDGET = {'quick': 8000, 'thorough': 100000}
FORMS = ['sym', 'sym', 'struct', 'stack', 'expr_struct']
DEFECTS = ['x expr', 'x const', 'x row', 'x matrix', 'z expr', 'z row', 'z matrix', 'u expr', 'u row', 'u matrix', 'u const',
           'p expr', 't expr', 't vector', 't const', 'tdp expr', 'ode row', 'ode more', 'ode less', 'alg row', 'alg more',
           'alg less', 'alg missing', 'xdot row', 'xdot more', 'xdot less', 'xdot expr', 'dae row', 'dae more', 'dae less',
           'no x', 'no ode', 'no dae', 'no xdot']


def applies(d, cls, n):
    v = d.split()[0] if not d.startswith('no ') else d[3:]
    if cls == 'implicit' and v in ('ode', 'alg'):
        return False
    if cls == 'semi' and v in ('xdot', 'dae'):
        return False
    if cls == 'base' and v in ('ode', 'alg', 'xdot', 'dae'):
        return False
    if d.endswith('less'):
        return (n['x'] if v in ('ode', 'xdot') else n['z'] if v == 'alg' else n['x'] + n['z']) > 0
    if d == 'alg missing':
        return n['z'] > 0
    if d == 'ode row' or d == 'xdot row':
        return n['x'] > 1
    if d == 'alg row':
        return n['z'] > 1
    if d == 'dae row':
        return n['x'] + n['z'] > 1
    return True


def strategy(tier):
    @st.composite
    def case(draw):
        cls = draw(st.sampled_from(['semi', 'semi', 'implicit', 'base']))
        n = {'x': draw(st.integers(1, 4)), 'z': draw(st.integers(0, 3)), 'u': draw(st.integers(0, 3)),
             'p': draw(st.integers(0, 3)), 'tdp': draw(st.integers(0, 2)), 'q': draw(st.integers(0, 3))}
        give = {k: draw(st.booleans()) or n[k] > 0 for k in ('z', 'u', 'p', 'tdp', 'q')}
        give['t'] = draw(st.booleans())
        give['alg'] = draw(st.booleans()) or n['z'] > 0
        forms = {k: draw(st.sampled_from(FORMS)) for k in ('x', 'z', 'u', 'p', 'tdp')}
        d = draw(st.one_of(st.none(), st.sampled_from([d for d in DEFECTS if applies(d, cls, n)])))
        return {'cls': cls, 'n': n, 'give': give, 'forms': forms, 'defect': d,
                'eq_struct': draw(st.booleans())}
    return case()


def corpus(tier):
    n = {'x': 2, 'z': 2, 'u': 1, 'p': 1, 'tdp': 1, 'q': 1}
    for cls in ('semi', 'implicit', 'base'):
        for nn in (n, dict(n, z=0), dict(n, x=1, z=0, u=0, p=0, tdp=0, q=0), dict(n, x=3, z=1)):
            give = {k: nn[k] > 0 for k in ('z', 'u', 'p', 'tdp', 'q')}
            give.update(t=False, alg=nn['z'] > 0)
            for full in (False, True):
                g = {k: True for k in give} if full else give
                for f in ('sym', 'struct', 'stack'):
                    yield {'cls': cls, 'n': nn, 'give': g, 'forms': {k: f for k in ('x', 'z', 'u', 'p', 'tdp')}, 'defect': None,
                           'eq_struct': full}
                for d in DEFECTS:
                    if applies(d, cls, nn):
                        yield {'cls': cls, 'n': nn, 'give': g, 'forms': {k: 'sym' for k in ('x', 'z', 'u', 'p', 'tdp')},
                               'defect': d, 'eq_struct': False}


def variable(name, size, form):
    if size == 0 or form == 'sym':
        return cs.MX.sym(name, size)
    if form == 'struct':
        return ce.struct_symMX([ce.entry('e%d' % i) for i in range(size)])
    if form == 'stack':
        return cs.vertcat(*[cs.MX.sym('%s%d' % (name, i)) for i in range(size)])
    return ce.struct_MX([ce.entry('e%d' % i, expr=cs.MX.sym('%s%d' % (name, i))) for i in range(size)])


def mx(v):
    return v if isinstance(v, cs.MX) else v.cat


def equation(rows, v, as_struct):
    """rows equations of the given variable."""
    s = cs.sum1(mx(v)) if v.numel() else cs.MX(1)
    e = [s * (i + 1) + i for i in range(rows)]
    if as_struct and rows:
        return ce.struct_MX([ce.entry('r%d' % i, expr=x) for i, x in enumerate(e)])
    return cs.vertcat(*e) if e else cs.MX(0, 1)


BAD = {'expr': lambda v: 2 * mx(v), 'const': lambda v: cs.MX.ones(max(1, v.numel())),
       'row': lambda v: cs.MX.sym('r', 1, max(2, v.numel())), 'matrix': lambda v: cs.MX.sym('m', max(2, v.numel()), 2),
       'vector': lambda v: cs.MX.sym('v', 2)}


def check(case, info):
    cls, n, give, d = case['cls'], case['n'], case['give'], case['defect']
    v = {k: variable(k, n[k], case['forms'][k]) for k in ('x', 'z', 'u', 'p', 'tdp')}
    v['t'] = cs.MX.sym('t')
    v['xdot'] = cs.MX.sym('xdot', n['x'])
    what, _, how = (d or '').partition(' ')
    if d and d.startswith('no '):
        what, how = how, 'missing'
    if how == 'expr' and what in ('z', 'u', 'p', 'tdp') and n[what] == 0:
        v[what] = cs.MX.sym(what, 1)            # an empty expression is not distinguishable from an empty symbol
        if what == 'z':
            n = dict(n, z=1)
    if how in BAD and what in v:
        v[what] = BAD[how](v[what])
    if how in BAD and what in ('z', 'u', 'p', 't', 'tdp'):
        give = dict(give, **{what: True})
    nz = v['z'].numel() if what == 'z' and how in BAD else n['z']
    nx = v['x'].numel() if what == 'x' and how in BAD else n['x']
    if what == 'x' and how in BAD:
        v['xdot'] = cs.MX.sym('xdot', nx)
    s = case['eq_struct']
    src = v['x'] if not (what == 'x' and how in BAD) else cs.MX.sym('w')
    eq = {}
    if cls == 'semi':
        eq['ode'] = equation(nx + {'more': 1, 'less': -1}.get(how if what == 'ode' else '', 0), src, s)
        if give['alg'] or nz:
            eq['alg'] = equation(nz + {'more': 1, 'less': -1}.get(how if what == 'alg' else '', 0), src, s)
        if what == 'alg' and how == 'more' and 'alg' not in eq:
            eq['alg'] = equation(nz + 1, src, s)
    elif cls == 'implicit':
        eq['xdot'] = v['xdot']
        if what == 'xdot' and how in ('more', 'less'):
            eq['xdot'] = cs.MX.sym('xdot', nx + (1 if how == 'more' else -1))
        rows = nz + eq['xdot'].numel() + {'more': 1, 'less': -1}.get(how if what == 'dae' else '', 0)
        eq['dae'] = equation(rows, src, s)
    if how == 'row' and what in ('ode', 'alg', 'dae', 'xdot'):
        eq[what] = cs.MX.sym('r', 1, mx(eq[what]).numel()) if what == 'xdot' else mx(eq[what]).T
    kw = dict(eq)
    kw['x'] = v['x']
    for k in ('z', 'u', 'p', 'tdp', 't'):
        if give[k] or (k == 'z' and nz):
            kw[k] = v[k]
    if give['q']:
        kw['quad'] = equation(n['q'], src, s)
    if how == 'missing':
        kw.pop(what, None)
    make = {'semi': SemiExplicitDae, 'implicit': ImplicitDae, 'base': Dae}[cls]

    info.label(cls)
    if d:
        info.hit()
        info.label('defect ' + d)
        rejects('%s with defect %r' % (make.__name__, d), make, **kw)
        return
    info.hit(sum(bool(b) for b in give.values()) >= 2)
    dae = cut(make.__name__, make, **kw)
    for k, val in kw.items():
        got = getattr(dae, k)
        require(got is val or (isinstance(got, cs.MX) and isinstance(val, cs.MX) and cs.is_equal(got, val, 0)),
                'attribute %s is not the given one', k)
    for k, attr in (('x', 'nx'), ('z', 'nz'), ('u', 'nu'), ('p', 'np'), ('tdp', 'ntdp'), ('q', 'nq')):
        val = kw.get('quad' if k == 'q' else k)
        size = val.numel() if val is not None else 0
        require(getattr(dae, attr) == size, '%s = %s, expected %d', attr, getattr(dae, attr), size)
        if val is None:
            got = getattr(dae, 'quad' if k == 'q' else k)
            require(got.numel() == 0, 'omitted %s has %d elements', k, got.numel())
            require(tuple(got.shape) == (0, 1), 'omitted %s has shape %s', k, got.shape)
    if 't' not in kw:
        require(dae.t.is_scalar() and dae.t.is_valid_input(), 'default time is not a scalar symbol')
    if cls == 'semi' and 'alg' not in kw:
        require(dae.alg.numel() == 0, 'omitted alg has %d elements', dae.alg.numel())
