import casadi as cs
import numpy as np
from hypothesis import strategies as st

import gen
from base import cut, require, require_equal, num
import casadi_extras as ce
from casadi_extras import inequality as iq
from casadi_extras.inequality import BoundedVariable, Inequality

RULE = ('case = tree of inequalities stacked by list or dict (leaves with or without bounds, all or none with nominal, '
        'columns, matrices inside dicts, empty parts), evaluated at random values of the leaf symbols; '
        'non-trivial = at least 2 non-empty leaves with distinct bounds')
NAMES = ['a', 'b', 'c', 'd', 'zz', 'B1', 'a10', 'a2', 'x_1', 'x', 'lb', 'T']
BUDGET = {'quick': 6000, 'thorough': 80000}


def strategy(tier):
    top = 2
    ext = st.one_of(gen.val(-50, 50), st.sampled_from(['inf', '-inf']))

    @st.composite
    def leaf(draw, nominal, matrices, cols):
        if matrices:
            r, c = draw(st.sampled_from([(1, 1), (2, 1), (3, 1), (0, 1), (2, 2), (1, 3), (2, 3)]))
        else:
            r, c = draw(st.integers(0, 3)), cols
        d = {'leaf': [r, c], 'val': draw(gen.matrix(r, c, gen.val(-3, 3))), 'expr': draw(st.sampled_from(['sym', 'lin', 'var', 'struct']))}
        for k in ('lb', 'ub'):
            if draw(st.booleans()):
                d[k] = draw(gen.matrix(r, c, ext))
        if nominal:
            d['nominal'] = draw(gen.matrix(r, c, gen.val(-50, 50)))
        return d

    @st.composite
    def node(draw, depth, nominal, cols):
        kind = draw(st.sampled_from(['list', 'dict'])) if cols == 1 else 'list'
        k = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 4, 7, 12])) if depth == top else draw(st.integers(1, 4))
        ch = []
        for _ in range(k):
            if depth > 0 and k < 7 and draw(st.integers(0, 3)) == 0:
                ch.append(draw(node(depth - 1, nominal, cols)))
            else:
                ch.append(draw(leaf(nominal, kind == 'dict', cols)))
        keys = draw(st.permutations(NAMES))[:k]
        return {'kind': kind, 'keys': keys, 'children': ch, 'tuple': draw(st.booleans())}

    return st.tuples(st.booleans(), st.sampled_from([1, 1, 1, 2])).flatmap(lambda a: node(top, a[0], a[1]).map(
        lambda n: {'root': n, 'nominal': a[0], 'cols': a[1]}))


def corpus(tier):
    def leaf(r, k, nom):
        d = {'leaf': [r, 1], 'val': [[float(i + k)] for i in range(r)], 'expr': 'lin', 'lb': [[float(-i - k)] for i in range(r)]}
        if k % 2:
            d['ub'] = [[float(10 + i + k)] for i in range(r)]
        if nom:
            d['nominal'] = [[float(5 * k + i)] for i in range(r)]
        return d
    for kind in ('list', 'dict'):
        for nom in (False, True):
            for sizes in ([1], [2, 1], [0, 2], [2, 0, 3], [0], [1, 1, 1, 1], [1] * 12, [2, 0, 1, 3] * 8):
                ch = [leaf(r, i + 1, nom) for i, r in enumerate(sizes)]
                yield {'root': {'kind': kind, 'keys': (['zz', 'b', 'a', 'c'] + ['k%d' % i for i in range(40)])[:len(ch)], 'children': ch, 'tuple': False},
                       'nominal': nom, 'cols': 1}


def arr(d, k, default):
    r, c = d['leaf']
    if k not in d:
        return np.full((r, c), default)
    return np.array([[float(v) for v in row] for row in d[k]], dtype=float).reshape(r, c)


def dmat(a):
    return cs.DM(a) if a.size else cs.DM(*a.shape)


class Ref(object):
    """Expected data of an inequality."""

    def __init__(self, val, lb, ub, nom, flat):
        self.val, self.lb, self.ub, self.nom, self.flat = val, lb, ub, nom, flat


def build(d, syms, made):
    """(inequality, Ref)"""
    if 'leaf' in d:
        r, c = d['leaf']
        val, lb, ub = arr(d, 'val', 0), arr(d, 'lb', -np.inf), arr(d, 'ub', np.inf)
        nom = arr(d, 'nominal', 0) if 'nominal' in d else None
        kw = {k: dmat(a) for k, a in (('lb', lb), ('ub', ub)) if k in d}
        if nom is not None:
            kw['nominal'] = dmat(nom)
        if d['expr'] == 'var' and nom is not None:
            v = cut('BoundedVariable', BoundedVariable, 'v%d' % len(syms), **kw)
            syms.append((v.expr, val))
        else:
            s = cs.MX.sym('s%d' % len(syms), r, c)
            syms.append((s, val))
            e = s
            if d['expr'] == 'lin' and r * c:
                e = 2 * s + 1
                val = 2 * val + 1
            elif d['expr'] == 'struct' and c == 1 and r > 0:
                e = ce.struct_MX([ce.entry('e', expr=s)])
            v = cut('Inequality', Inequality, expr=e, **kw)
        ref = Ref(val, lb, ub, nom, None)
        made.append((v, ref))
        return v, ref
    built = [build(c, syms, made) for c in d['children']]
    ins = [b[0] for b in built]
    refs = [b[1] for b in built]
    nom = all(r.nom is not None for r in refs)
    if d['kind'] == 'list':
        v = cut('vertcat of a list', iq.vertcat, tuple(ins) if d['tuple'] else ins)
        st_ = lambda g: np.vstack([g(r) for r in refs])
    else:
        v = cut('vertcat of a dict', iq.vertcat, dict(zip(d['keys'], ins)))
        st_ = lambda g: np.concatenate([g(r).ravel(order='F') for r in refs]).reshape(-1, 1)
    ref = Ref(st_(lambda r: r.val), st_(lambda r: r.lb), st_(lambda r: r.ub), st_(lambda r: r.nom) if nom else None,
              dict(zip(d['keys'], refs)) if d['kind'] == 'dict' else None)
    made.append((v, ref))
    return v, ref


def mx(e):
    return e if isinstance(e, (cs.MX, cs.DM)) else e.cat


def check(case, info):
    syms, made = [], []
    build(case['root'], syms, made)
    ins = [s for s, _ in syms]
    vals = [dmat(a) for _, a in syms]
    exprs = []
    for v, ref in made:
        exprs.append(mx(v.expr))
        if ref.flat is not None:
            exprs += [v.expr[k] for k in ref.flat]
    F = cut('Function of the stacked expressions', cs.Function, 'F', ins, exprs)
    out = [num('expr', a) for a in cut('evaluation', F.call, vals)]
    pos = 0
    for v, ref in made:
        shape = ref.val.shape
        require(tuple(v.expr.shape) == shape, 'stacked expression has shape %s, expected %s', v.expr.shape, shape)
        require(v.numel() == ref.val.size, 'numel %s for shape %s', v.numel(), shape)
        require_equal('stacked expression', out[pos], ref.val)
        pos += 1
        require_equal('stacked lower bound', num('lb', v.lb), ref.lb)
        require_equal('stacked upper bound', num('ub', v.ub), ref.ub)
        if ref.nom is None:
            require(v.nominal is None, 'nominal %s although none was given', v.nominal)
        else:
            require(v.nominal is not None, 'nominal value lost')
            require_equal('stacked nominal value', num('nominal', v.nominal), ref.nom)
        if ref.flat is not None:
            info.label('dict')
            keys = list(ref.flat)
            require(list(v.expr.keys()) == keys, 'keys of the stack are %s, expected %s', list(v.expr.keys()), keys)
            for k in keys:
                r = ref.flat[k]
                require_equal('expression of %s' % k, out[pos], r.val)
                pos += 1
                require_equal('lower bound of %s' % k, num('lb', cut('lb[%s]' % k, v.lb.__getitem__, k)), r.lb)
                require_equal('upper bound of %s' % k, num('ub', cut('ub[%s]' % k, v.ub.__getitem__, k)), r.ub)
                if ref.nom is not None:
                    require_equal('nominal of %s' % k, num('nominal', cut('nominal[%s]' % k, v.nominal.__getitem__, k)), r.nom)
    leaves = [r for v, r in made if r.val.size and r.flat is None]
    info.hit(len(leaves) >= 2 and len(set((tuple(r.lb.ravel()), tuple(r.ub.ravel())) for r in leaves)) >= 2)
    info.label('nominal' if case['nominal'] else 'no nominal', 'nested' if any('children' in c for c in case['root']['children']) else 'flat',
               'columns=%d' % case['cols'])
