import casadi as cs
import casadi_extras as ce
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
from base import cut, rejects, require, require_equal, num

RULE = ('case = declaration, storage kind (numbers, SX/MX expressions, SX/MX symbols, field-wise composed, matrix views) and the '
        'uses made of it; every use is compared with the same use of the flat vector (matrix); non-trivial = at least 2 slots '
        'and a repetition, nesting or matrix')
BUDGET = {'quick': 3000, 'thorough': 40000}
VIEWS = ['repeated', 'squared', 'product', 'squared_repeated']


def strategy(tier):
    @st.composite
    def case(draw):
        spec = draw(sm.decl(depth=3 if tier == 'thorough' else draw(st.sampled_from([2, 2, 2, 2, 3])), max_size=40))
        return {'spec': spec, 'kind': draw(st.sampled_from(sm.KINDS)), 'view': draw(st.sampled_from([None, None] + VIEWS)),
                'n': draw(st.integers(1, 3)), 'as': draw(st.sampled_from(['struct', 'symSX', 'symMX', 'raw'])),
                'again': draw(st.sampled_from(['struct', 'struct_symSX', 'struct_symMX']))}
    return case()


def corpus(tier):
    from props import c01
    for c in c01.corpus(tier):
        if c['cls'] == 'struct':
            for k, kind in enumerate(sm.KINDS):
                yield {'spec': c['spec'], 'kind': kind, 'view': ([None] + VIEWS)[k % 5], 'n': 2, 'as': 'struct', 'again': 'struct'}


def uses(s, flat, other):
    """(what, result of using s, result of using the matrix it stands for)"""
    T = type(flat)
    yield 'conversion', cut('%s(s)' % T.__name__, T, s), flat
    if T is cs.DM:
        yield 'conversion to SX', cut('SX(s)', cs.SX, s), flat
        yield 'conversion to MX', cut('MX(s)', cs.MX, s), flat
    yield 'vertcat', cut('vertcat', cs.vertcat, s, other, s), cs.vertcat(flat, other, flat)
    yield 'horzcat', cut('horzcat', cs.horzcat, s, other), cs.horzcat(flat, other)
    yield 'vec', cut('vec', cs.vec, s), cs.vec(flat)
    yield 'elementwise function', cut('fabs', cs.fabs, s), cs.fabs(flat)
    yield 'difference', cut('minus', cs.minus, other, s), other - flat
    yield 'product', cut('times', cs.times, s, other), flat * other
    yield 'right operand', cut('m - s', lambda: other - s), other - flat
    yield 'matrix product', cut('mtimes', cs.mtimes, other.T, s), cs.mtimes(other.T, flat)
    yield 'sum', cut('sum1', cs.sum1, s), cs.sum1(flat)
    x = cs.MX.sym('x', flat.sparsity())
    f = cs.Function('f', [x], [3 * x], ['x'], ['y'])
    yield 'function argument', cut('f(s)', f, s), 3 * flat
    yield 'named function argument', cut('f(x=s)', lambda: f(x=s)['y']), 3 * flat


def compare(what, pairs, w, base):
    """Both sides evaluated at w = base."""
    pairs = list(pairs)
    for n, g, e in pairs:
        require(g.shape == e.shape, '%s, %s: shape %s, expected %s', what, n, g.shape, e.shape)
    if w is None:
        got, want = ([num(n, p[k]) for n, p in zip([n for n, _, _ in pairs], [(g, e) for _, g, e in pairs])] for k in (0, 1))
    else:
        f = cut('Function', cs.Function, 'f', [w], [g for _, g, _ in pairs])
        h = cs.Function('h', [w], [e for _, _, e in pairs])
        got, want = ([num('value', v) for v in F.call([cs.DM(base)])] for F in (f, h))
    for (n, _, _), g, e in zip(pairs, got, want):
        require_equal('%s, %s' % (what, n), g, e)


def check(case, info):
    spec, kind = case['spec'], case['kind']
    d = sm.Decl(spec)
    info.label(kind)
    info.hit(d.size >= 2 and bool(sm.features(spec) - {'scalar', 'col', '0-d repeat'}))
    base = sm.base_values(d)
    T = {'DM': cs.DM, 'SX': cs.SX, 'symSX': cs.SX, 'fillSX': cs.SX}.get(kind, cs.MX)
    if case['view'] is not None and kind in ('DM', 'SX', 'MX'):
        return check_view(case, d, T, info)

    s, w = cut('construction of %s' % kind, sm.stored, spec, kind)
    flat = cs.DM(base) if w is None else w
    other = T(cs.DM(np.arange(d.size) * 0.5 - 1))
    compare(kind, uses(s, flat, other), w, base)
    require(tuple(s.shape) == (d.size, 1), '%s: shape %s, expected %s', kind, s.shape, (d.size, 1))
    require(s.sparsity() == cs.Sparsity.dense(d.size, 1), '%s: sparsity %s', kind, s.sparsity())
    require(s.size == d.size, '%s: size %s, expected %d', kind, s.size, d.size)
    for name, exp in (('numel', d.size), ('is_dense', True), ('is_column', True)):
        if hasattr(s, name):
            got = cut(name, getattr(s, name))
            require(got == exp, '%s: %s() is %s, expected %s', kind, name, got, exp)
    if kind in ('symSX', 'symMX'):
        f = cut('Function of the symbols', cs.Function, 'f', [s], [s, 2 * s.cat])
        for k, g in enumerate(f.call([cs.DM(base)])):
            require_equal('%s: function input and output' % kind, num('f', g).ravel(), (k + 1) * base)
        J = cut('jacobian', cs.jacobian, 3 * s.cat, s)
        require_equal('%s: jacobian' % kind, num('J', cs.evalf(J) if T is cs.MX else cs.DM(J)), 3 * np.eye(d.size))
    if kind == 'symMX' or kind == 'veccat':
        got = cut('is_valid_input', s.is_valid_input)
        require(got == s.cat.is_valid_input(), '%s: is_valid_input() is %s, its flat vector says otherwise', kind, got)

    # declarations of nested structs
    decl = cut('declaration', sm.build, spec, 'struct' if case['as'] == 'raw' else case['as'])
    holders = [('declaration', decl.struct if case['as'] == 'raw' else decl), (kind, s)]
    for who, h in holders:
        for name in d.keys:
            e = d.entries[name]
            if e.sub is None:
                rejects('%s: getStruct(%r) of an entry without a struct' % (who, name), h.getStruct, name)
                continue
            info.label('nested')
            sub = cut('%s: getStruct(%r)' % (who, name), h.getStruct, name)
            require(list(sub.keys()) == e.sub.keys and sub.size == e.sub.size, '%s: getStruct(%r) has keys %s and size %s',
                    who, name, list(sub.keys()), sub.size)
            exp = [c + p for c, k, p in e.sub.table]
            got = [tuple(x) for x in sub.canonicalIndices(2)]
            require(got == exp, '%s: getStruct(%r) has the layout %s, expected %s', who, name, got, exp)
        rejects('%s: getStruct of an unknown name' % who, h.getStruct, 'nosuch')
    for name in d.keys:
        e = d.entries[name]
        if e.sub is None or e.dims or kind != 'DM':
            continue
        part = cut('cast by getStruct(%r)' % name, decl.getStruct(name), s[name])
        for k in e.sub.keys:
            for what, g, l in sm.pairs('getStruct(%r) then %r' % (name, k), part[k], d.get([['n', name], ['n', k]])):
                require_equal(what, num(what, g), sm.values(l, base))

    # a struct made from a declaration has its layout
    t = cut(case['again'], getattr(ce, case['again']), decl)
    info.label('from ' + case['as'])
    require(t.size == d.size and list(t.keys()) == d.keys, '%s(declaration) has size %s and keys %s', case['again'], t.size, list(t.keys()))
    require([tuple(c) for c in t.canonicalIndices(2)] == [c + p for c, k, p in d.table], '%s(declaration) has the layout %s',
            case['again'], t.canonicalIndices(2))


def check_view(case, d, T, info):
    name, n = case['view'], case['n']
    info.label('view ' + name)
    s = cut('declaration', sm.build, case['spec'])
    other = cut('declaration', ce.struct, [ce.entry('p'), ce.entry('q', shape=2)])
    cols = {'repeated': n, 'squared': d.size, 'product': 3, 'squared_repeated': n * d.size}[name]
    if (d.size, cols) == (1, 1) and name in ('squared', 'product'):
        return
    base = np.arange(d.size * cols) + 11.0
    if T is cs.DM:
        w, m = None, cs.reshape(cs.DM(base), d.size, cols)
    else:
        w = T.sym('w', d.size * cols)
        m = cs.reshape(w, d.size, cols)
    v = cut(name, s.product, other, m) if name == 'product' else cut(name, getattr(s, name), m)
    want = cs.DM(m) if T is cs.DM else m
    compare('%s view' % name, uses(v, want, T(cs.DM(np.arange(d.size * cols).reshape(d.size, cols) * 0.5))), w, base)
    require(tuple(v.shape) == (d.size, cols), '%s view: shape %s, expected %s', name, v.shape, (d.size, cols))
