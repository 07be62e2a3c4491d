import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
from base import cut, rejects, require, require_equal, num

RULE = ('case = struct declaration (nesting, repetition, grouping, order, dense/sparse/symmetric/struct-shaped entries), the '
        'class declaring it, and index expressions for the lookups; every flat position is checked in every extra-index mode; '
        'non-trivial = at least 2 stored scalars and at least one of: repetition, nesting, grouping, order, matrix')
BUDGET = {'quick': 5000, 'thorough': 60000}


def strategy(tier):
    @st.composite
    def case(draw):
        spec = draw(sm.decl(depth=3 if tier == 'thorough' else draw(st.sampled_from([2, 2, 2, 2, 3]))))
        d = sm.Decl(spec)
        return {'spec': spec, 'cls': draw(st.sampled_from(['struct', 'symSX', 'symMX', 'raw'])),
                'i': draw(st.lists(sm.index(d), min_size=1, max_size=4)),
                'f': draw(st.lists(sm.index(d, functions=False, sets=False), min_size=1, max_size=4))}
    return case()


def corpus(tier):
    S = lambda items, order=None: {'items': items, 'order': order}
    sc = lambda n, **k: dict({'name': n, 'kind': 'scalar'}, **k)
    col = lambda n, r, **k: dict({'name': n, 'kind': 'col', 'shape': [r, 1]}, **k)
    mat = lambda n, r, c, **k: dict({'name': n, 'kind': 'mat', 'shape': [r, c]}, **k)
    sub = lambda n, s, **k: dict({'name': n, 'kind': 'struct', 'struct': s}, **k)
    inner = S([sc('x'), col('y', 2)])
    specs = [S([sc('x')]), S([col('x', 3), mat('y', 2, 3)]), S([sc('x', rep=[2, 3])]), S([mat('x', 2, 2, rep=[2, 3]), sc('y')]),
             S([{'group': [sc('x', rep=[3]), sc('y', rep=[2])]}]),
             S([sc('z'), {'group': [sc('x', rep=[3, 2]), col('y', 2, rep=[4])]}, sc('w')]),
             S([{'group': [sc('x'), sc('y', rep=[2])]}]),
             S([sc('x'), col('y', 2), sc('z', rep=[2])], ['z', 'x', 'y']),
             # the same names at several levels
             S([sub('b', S([sc('y')])), sub('a', S([sub('b', S([sc('y')]))]))]),
             S([sub('a', S([sub('b', S([sc('y'), sub('a', S([sc('b')]))]))])), sub('b', S([sc('y'), sub('a', S([sc('b')]))])), sc('y')]),
             S([{'name': 'n', 'kind': 'struct', 'struct': inner, 'rep': [2]}, {'name': 'm', 'kind': 'struct', 'struct': inner}]),
             S([{'group': [{'name': 'n', 'kind': 'struct', 'struct': inner, 'rep': [2, 2]}, sc('q', rep=[2])]}]),
             S([{'name': 'P', 'kind': 'symm', 'shape': [3, 3], 'rep': [2]}, sc('x')]),
             S([{'name': 's', 'kind': 'sparse', 'shape': [2, 3], 'nz': [[0, 0], [0, 2], [1, 1]]}, sc('x')])]
    for spec in specs:
        d = sm.Decl(spec)
        idx = [[['n', k]] for k in d.keys] + [[['...']], [['nd']]]
        for cls in ('struct', 'symSX', 'symMX'):
            yield {'spec': spec, 'cls': cls, 'i': idx, 'f': idx[:-1]}


def dense(d, tokens):
    return all((l.idx >= 0).all() and not l.symm for l in sm.leaves(d.get(tokens)))


def check(case, info):
    spec = case['spec']
    d = sm.Decl(spec)
    up = sm.Decl(spec, upper=True)
    info.label(case['cls'], *sm.features(spec))
    info.hit(d.size >= 2 and bool(sm.features(spec) - {'scalar', 'col', '0-d repeat'}))
    s = cut('declaration', sm.build, spec, 'struct' if case['cls'] == 'raw' else case['cls'])
    if case['cls'] == 'raw':
        s = s.struct
    require(s.size == d.size, 'size %s, expected %d', s.size, d.size)
    require(list(s.keys()) == d.keys, 'keys %s, expected %s', list(s.keys()), d.keys)

    # canonical indices and labels
    for mode in (0, 1, 2):
        exp = [c + (() if mode == 0 else (k,) if mode == 1 else p) for c, k, p in d.table]
        got = cut('canonicalIndices(extraMode=%d)' % mode, s.canonicalIndices, mode)
        require([tuple(g) for g in got] == exp, 'canonical indices in extra mode %d: %s, expected %s', mode, got, exp)
        lab = ['[' + ','.join(str(x) for x in c) + ']' for c in exp]
        got = cut('labels(extraMode=%d)' % mode, s.labels, mode)
        require(list(got) == lab, 'labels in extra mode %d: %s, expected %s', mode, got, lab)
    k = d.size // 2
    if d.size:
        require(s.getCanonicalIndex(k) == s.canonicalIndices()[k], 'getCanonicalIndex(%d)', k)
        require(s.getLabel(k) == s.labels()[k], 'getLabel(%d)', k)
    rejects('getCanonicalIndex(%d) of a struct of size %d' % (d.size, d.size), s.getCanonicalIndex, d.size)
    rejects('getCanonicalIndex(-1)', s.getCanonicalIndex, -1)

    # index lookups
    for t in case['i']:
        try:
            tree = up.get(t)
        except sm.Invalid:
            continue
        what = '.i%s' % sm.show(t)
        got = cut(what, s.i.__getitem__, sm.pyindex(t))
        for w, g, l in sm.pairs(what, got, tree):
            g = cs.DM(g)
            require_equal(w, num(w, g) if g.is_dense() else filled(g), l.idx)
    for t in case['f']:
        tree = d.get(t)
        if not dense(d, t) or any(isinstance(x, dict) for x in sm.walk(tree)):
            continue
        what = '.f%s' % sm.show(t)
        got = cut(what, s.f.__getitem__, sm.pyindex(t))
        exp = [int(v) for l in sm.leaves(tree) for v in l.idx.ravel(order='F')]
        require(list(got) == exp, '%s: %s, expected %s', what, got, exp)

    # the canonical index of a slot addresses that slot
    flat = np.arange(d.size) * 1.0 + 100
    v = cut('cast of a vector', s, cs.DM(flat))
    require_equal('flat vector', num('cat', v.cat).ravel(), flat)
    for mode in (1, 2):
        for p, c in enumerate(cut('canonicalIndices', s.canonicalIndices, mode)):
            e = d.leaves and next(e for cc, e, _ in d.leaves if cc == d.table[p][0])
            if mode == 1 and not e.dense():
                continue                   # counts structural nonzeros
            got = cut('read %s' % (c,), v.__getitem__, tuple(c))
            require(num('element', got).shape == (1, 1) and float(got) == flat[p], 'position %d is reported as %s, which reads %s instead of %s',
                    p, c, got, flat[p])
    if case['cls'] in ('symSX', 'symMX'):
        require(tuple(s.cat.shape) == (d.size, 1), 'symbolic flat vector has shape %s', s.cat.shape)
        require(tuple(s.shape) == (d.size, 1), 'shape %s', s.shape)
        ex = [s[tuple(c)] for c in s.canonicalIndices(2)]
        f = cut('Function of the symbols', cs.Function, 'f', [s.cat], [cs.vertcat(*ex)])
        require_equal('symbols in canonical order', num('f', f(cs.DM(flat))).ravel(), flat)


def filled(g):
    out = np.full(g.shape, -1.0)
    sp = g.sparsity()
    for i, j, v in zip(sp.row(), sp.get_col(), g.nonzeros()):
        out[i, j] = v
    return out
