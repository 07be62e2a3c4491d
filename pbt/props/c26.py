import casadi as cs
import numpy as np
from hypothesis import strategies as st

import gen
from base import cut, rejects, require, require_equal, num
import casadi_extras as ce
from casadi_extras.inequality import BoundedVariable, Inequality

RULE = ('case = sequence of inequality / bounded variable declarations (expression shape and kind, which of lb, ub, nominal '
        'are given and in which container, at most one wrong shape); all objects are checked after the whole sequence; '
        'non-trivial = some given bound on a non-empty expression')
BUDGET = {'quick': 8000, 'thorough': 100000}
CONT = ['list', 'array', 'DM', 'struct', 'mixed', 'intarray', 'number', 'nested', 'fortran']


def strategy(tier):
    ext = st.one_of(gen.val(-50, 50), st.sampled_from(['inf', '-inf']))

    @st.composite
    def decl(draw):
        r, c = draw(st.sampled_from([(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (1, 3), (2, 2), (3, 2), (2, 1), (3, 1), (5, 4), (12, 1), (30, 1)]))
        kind = draw(st.sampled_from(['ineq', 'ineq', 'var']))
        d = {'kind': kind, 'shape': [r, c], 'expr': draw(st.sampled_from(['sym', 'expr', 'struct', 'SX', 'exprstruct']))}
        for k in ('lb', 'ub', 'nominal'):
            if draw(st.booleans()) or (k == 'nominal' and kind == 'var' and draw(st.booleans())):
                d[k] = [draw(st.sampled_from(CONT)), draw(gen.matrix(r, c, ext if k != 'nominal' else gen.val(-50, 50)))]
        if draw(st.integers(0, 3)) == 0:
            which = draw(st.sampled_from(['lb', 'ub', 'nominal'] if kind == 'ineq' else ['lb', 'ub']))
            bad = draw(st.sampled_from([[r + 1, c], [r, c + 1], [c, r], [r + 2, c], [1, 1], [r - 1, c], [r * c, 1], [1, r * c]]))
            if bad != [r, c] and min(bad) >= 0 and not (kind == 'var' and 'nominal' not in d):
                d['bad'] = [which, bad]
        d['name'] = draw(st.sampled_from(['v', 'x', 'var2', 'y_1']))
        d['positional'] = draw(st.booleans())
        return d
    return st.lists(decl(), min_size=1, max_size=4).map(lambda s: {'decls': s})


def corpus(tier):
    for shape in ([0, 1], [1, 1], [3, 1], [1, 3], [2, 2]):
        z = [[1.5 * (i + j) for j in range(shape[1])] for i in range(shape[0])]
        for kind in ('ineq', 'var'):
            for given in ([], ['lb'], ['ub'], ['nominal'], ['lb', 'ub', 'nominal']):
                d = {'kind': kind, 'shape': shape, 'expr': 'sym', 'name': 'v', 'positional': False}
                d.update({k: ['DM', z] for k in given})
                yield {'decls': [d]}
                for how in CONT:
                    for first in (0.0, 1.0, 0.5):
                        w = [[first + 1.5 * (i + j) for j in range(shape[1])] for i in range(shape[0])]
                        yield {'decls': [dict(d, **{k: [how, w] for k in given})]}


def number(v):
    return float(v)


def as_array(rows, shape):
    return np.array([[number(v) for v in r] for r in rows], dtype=float).reshape(shape)


def container(a, how):
    """The value to pass for the 2-D array a."""
    if how == 'list' and a.shape[1] == 1 and a.shape[0] > 0:
        return [float(v) for v in a[:, 0]]
    if how == 'mixed' and a.shape[1] == 1 and a.shape[0] > 0:
        return [int(v) if np.isfinite(v) and v == int(v) else float(v) for v in a[:, 0]]
    if how == 'nested' and a.shape[1] > 1:
        return [[float(v) for v in r] for r in a]
    if how == 'number' and a.shape == (1, 1):
        return float(a[0, 0])
    if how == 'intarray' and a.size and np.all(np.isfinite(a)) and np.all(a == np.round(a)):
        return a.astype(int)
    if how == 'array':
        return a.copy()
    if how == 'fortran':
        return np.asfortranarray(a)
    if how == 'struct' and a.shape[1] == 1 and a.shape[0] > 0:
        s = ce.struct_symMX([ce.entry('e%d' % i) for i in range(a.shape[0])])
        return s(cs.DM(a))
    return cs.DM(a) if a.size else cs.DM(*a.shape)


def expression(d):
    r, c = d['shape']
    if d['expr'] == 'struct' and c == 1 and r > 0:
        return ce.struct_symMX([ce.entry('a', shape=r)])
    if d['expr'] == 'exprstruct' and c == 1 and r > 0:
        return ce.struct_MX([ce.entry('a', expr=cs.sin(cs.MX.sym('w', r)))])
    if d['expr'] == 'SX':
        return cs.SX.sym('s', r, c)
    if d['expr'] == 'expr':
        return cs.cos(cs.MX.sym('w', r, c)) * 2
    return cs.MX.sym('w', r, c)


def check(case, info):
    made = []
    for d in case['decls']:
        shape = tuple(d['shape'])
        given = {k: as_array(d[k][1], shape) for k in ('lb', 'ub', 'nominal') if k in d}
        kw = {k: container(a, d[k][0]) for k, a in given.items()}
        if 'bad' in d:
            k, bad = d['bad']
            kw[k] = cs.DM.ones(*bad) if bad[0] * bad[1] else cs.DM(*bad)
        if d['kind'] == 'var':
            if 'nominal' not in kw:
                shape = (0, 1)
                kw = {}
                given = {}
            elif isinstance(kw['nominal'], (list, float)):
                kw['nominal'] = cs.DM(kw['nominal'])
            f = lambda: (BoundedVariable(d['name'], **kw))
        else:
            e = expression(d)
            if d['positional'] and 'bad' not in d:
                f = lambda: Inequality(e, kw.get('lb'), kw.get('ub'), kw.get('nominal'))
            else:
                f = lambda: Inequality(expr=e, **kw)
        if 'bad' in d and kw:
            info.label('rejected ' + d['bad'][0])
            rejects('%s of shape %s with %s of shape %s' % (d['kind'], shape, d['bad'][0], d['bad'][1]), f)
            continue
        v = cut('%s declaration' % d['kind'], f)
        made.append((d, shape, given, kw, v, None if d['kind'] == 'var' else e))
    for d, shape, given, kw, v, e in made:
        info.hit(bool(given) and shape[0] * shape[1] > 0)
        info.label(d['kind'], *['given ' + k for k in given])
        require(tuple(v.expr.shape) == shape, 'expression shape %s, expected %s', v.expr.shape, shape)
        require(v.numel() == shape[0] * shape[1], 'numel %s for shape %s', v.numel(), shape)
        for k, default in (('lb', -np.inf), ('ub', np.inf)):
            want = given[k] if k in given else np.full(shape, default)
            require_equal(k, num(k, getattr(v, k)).reshape(-1, shape[1]) if shape[0] else np.zeros(shape), want)
            require(tuple(getattr(v, k).shape) == shape, '%s shape %s, expected %s', k, getattr(v, k).shape, shape)
        if 'nominal' in given:
            require_equal('nominal', num('nominal', v.nominal), given['nominal'])
        elif d['kind'] == 'ineq':
            require(v.nominal is None, 'nominal of an inequality without one is %s', v.nominal)
        for k in given:
            if d[k][0] == 'struct' and isinstance(kw[k], ce.structure3.DMStruct):
                require(list(getattr(v, k).keys()) == list(kw[k].keys()), '%s lost its structure', k)
        if e is not None:
            require(v.expr is e or (type(v.expr) is type(e) and cs.is_equal(v.expr, e, 0)), 'the expression was changed')
        else:
            require(isinstance(v.expr, cs.MX) and v.expr.is_valid_input(), 'the variable is not a symbol')
            require(v.numel() == 0 or v.expr.name() == d['name'], 'the variable is named %s instead of %s', v.expr, d['name'])
            for w in made:
                if w[4] is not v and w[0]['kind'] == 'var' and shape[0] and w[1] == shape:
                    require(not cs.is_equal(w[4].expr, v.expr, 0), 'two variables share one symbol')
