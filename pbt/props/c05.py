import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
import structwrite as sw
from base import cut, rejects, require, require_equal, num
from props import c03

RULE = ('case = one or two structs, a view (repeated, squared, product, squared_repeated) over 1-2 numeric, SX or MX matrices, '
        'a history of block reads and assignments by field names, delegated indices, positions and slices, and matrices of '
        'shapes that do not fit; non-trivial = some block addressed by a field name on a struct with at least 2 slots')
BUDGET = {'quick': 4000, 'thorough': 50000}
VIEWS = ['repeated', 'squared', 'product', 'squared_repeated']


def view_spec(case):
    """Declaration whose flat vector is the matrix, column by column."""
    a, b, n = case['a'], case['b'], case['n']
    e = {'name': 't'}
    if case['view'] == 'repeated':
        e.update(kind='struct', struct=a, rep=[n])
    else:
        e.update(kind='ss', ss=[a, b if case['view'] == 'product' else a])
        if case['view'] == 'squared_repeated':
            e['rep'] = [n]
    return {'items': [e], 'order': None}


@st.composite
def view_index(draw, d, unique=False, functions=True):
    e = d.entries['t']
    for _ in range(3):
        t = draw(sm._entry_index(e, e.dims, functions, True, True, unique))
        t = [['n', 't']] + t
        while len(t) > 1:
            try:
                tree = d.get(t)
                if all(l.entry is None or l.entry.ss is None or l.extra != 1 for l in sm.leaves(tree)):
                    break
            except sm.Invalid:
                pass
            t = t[:-1]
        if len(t) > 1:
            return t
    return [['n', 't']] + [['i', 0]] * len(e.dims)


def strategy(tier):
    @st.composite
    def case(draw):
        v = draw(st.sampled_from(VIEWS))
        kinds = sm.ALL if v == 'repeated' and draw(st.booleans()) else sm.DENSE
        small = v != 'repeated'
        sub = lambda: sm.decl(depth=1, kinds=tuple(kinds), max_entries=3, maxrep=2, max_size=10 if small else 25)
        c = {'view': v, 'a': draw(sub()), 'b': draw(sub()) if v == 'product' else None, 'n': draw(st.integers(1, 3))}
        d = sm.Decl(view_spec(c))
        c['kinds'] = draw(st.lists(st.sampled_from(['DM', 'SX', 'MX']), min_size=1, max_size=2))
        symm = 'symm' in sm.features(c['a'])
        ops = []
        for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 6]))):
            t = draw(view_index(d, True, not symm))
            if not c03.writable(d, t, None):
                t = [['n', 't']] + [['i', 0]] * len(d.entries['t'].dims)
            op = {'o': draw(st.integers(0, len(c['kinds']) - 1)), 'idx': t, 'read': draw(view_index(d)),
                  'ch': draw(st.lists(st.integers(0, 11), min_size=1, max_size=6))}
            if draw(st.integers(0, 9)) == 0:
                op['bad'] = 'shape'
            ops.append(op)
        c['ops'] = ops
        c['badmat'] = draw(st.sampled_from([[1, 0], [0, 1], [1, 1], [-1, 0], [0, -1], [2, 0]]))
        return c
    return case()


def corpus(tier):
    a = {'items': [{'name': 'x', 'kind': 'col', 'shape': [2, 1]}, {'name': 'y', 'kind': 'scalar'}], 'order': None}
    b = {'items': [{'name': 'p', 'kind': 'scalar', 'rep': [2]}, {'name': 'q', 'kind': 'mat', 'shape': [2, 2]}], 'order': None}
    for v in VIEWS:
        for aa, bb in ((a, b), (b, a)):
            c = {'view': v, 'a': aa, 'b': bb if v == 'product' else None, 'n': 2, 'badmat': [1, 0]}
            d = sm.Decl(view_spec(c))
            e = d.entries['t']
            ops = []
            rows = sm.Decl(aa).keys
            cols = sm.Decl(bb if v == 'product' else aa).keys
            rep = [['i', 1]] * len(e.dims)
            for k, r in enumerate(rows):
                for q in cols:
                    t = [['n', 't']] + rep + ([['n', r]] if v == 'repeated' else [['d', r], ['d', q]])
                    ops.append({'o': k % 2, 'idx': t, 'read': t, 'ch': [1, 1, 1]})
            if v != 'repeated':
                t = [['n', 't']] + rep + [['dl', rows[::-1]], ['dl', cols]]
                ops.append({'o': 0, 'idx': t, 'read': t, 'ch': [1]})
            ops.append({'o': 1, 'idx': [['n', 't']] + rep, 'read': [['n', 't']], 'ch': [1]})
            for kinds in (['DM', 'DM'], ['SX', 'SX'], ['MX', 'MX']):
                yield dict(c, kinds=kinds, ops=ops)


class Adapter(object):
    """A view addressed like the struct of which it is the entry 't'."""

    def __init__(self, view):
        self.view = view

    @staticmethod
    def strip(py):
        if not isinstance(py, tuple):
            return ()
        return py[1] if len(py) == 2 else py[1:]

    def __getitem__(self, py):
        r = self.strip(py)
        return self.view() if isinstance(r, tuple) and not r else self.view[r]

    def __setitem__(self, py, v):
        self.view[self.strip(py)] = v

    @property
    def cat(self):
        return cs.vec(self.view.cast())


def make(case, struct, other, m):
    if case['view'] == 'product':
        return struct.product(other, m)
    return getattr(struct, case['view'])(m)


def shape(case):
    na = sm.Decl(case['a']).size
    nb = sm.Decl(case['b']).size if case['b'] is not None else None
    return na, {'repeated': case['n'], 'squared': na, 'product': nb, 'squared_repeated': na * case['n']}[case['view']]


def fits(case, r, c):
    na, nc = shape(case)
    if case['view'] == 'repeated':
        return r == na
    if case['view'] == 'squared_repeated':
        return r == na and c % na == 0
    return r == na and c == nc or (r == c == 1 and case['view'] in ('squared', 'product'))


def check(case, info):
    d = sm.Decl(view_spec(case))
    r, c = shape(case)
    info.label(case['view'], *sm.features(case['a']))
    struct = cut('declaration', sm.build, case['a'])
    other = cut('declaration', sm.build, case['b']) if case['b'] is not None else None
    base = sm.base_values(d)
    objs = []
    for kind in case['kinds']:
        if kind == 'DM':
            w, m = None, cs.DM(base.reshape((r, c), order='F'))
        else:
            w = (cs.SX if kind == 'SX' else cs.MX).sym('w', r * c)
            m = cs.reshape(w, r, c)
        v = cut('%s view of a %s' % (case['view'], kind), make, case, struct, other, m)
        objs.append({'kind': kind, 's': Adapter(v), 'w': w, 'state': base.copy(), 'vals': sw.Values(kind), 'todo': []})
    for o in objs:
        o['vals'].sparse = False
    c03.run(case['ops'], objs, d, info)
    for o in objs:
        require(tuple(o['s'].view.cast().shape) == (r, c), 'the view casts back to shape %s instead of %s', o['s'].view.cast().shape, (r, c))
        if o['kind'] == 'DM':
            require_equal('matrix cast back', num('cast', cs.DM(o['s'].view)), o['state'].reshape((r, c), order='F'))
    # sizes next to the right one, and other shapes with as many elements
    wrong = {(r + case['badmat'][0], c + case['badmat'][1]), (c, r), (1, r * c), (r * c, 1)}
    wrong |= {(k, r * c // k) for k in (2, 3) if r * c % k == 0}
    for br, bc in sorted(wrong):
        if br > 0 and bc > 0 and (br, bc) != (1, 1) and not fits(case, br, bc):
            info.label('rejected matrix')
            for cls in (cs.DM.ones(br, bc), cs.SX.sym('m', br, bc), cs.MX.sym('m', br, bc)):
                rejects('%s view of a %dx%d matrix' % (case['view'], br, bc), make, case, struct, other, cls)
    named = any(t[0] in ('n', 'd', 'dl', 'index', 'indexf', 'nl', 'set') for op in case['ops'] for t in op['idx'][1:])
    info.nontrivial = named and r >= 2
    if case['view'] in ('squared', 'product'):
        z = cut('%s view of a scalar' % case['view'], make, case, struct, other, 2.5)
        if r * c > 1:
            require_equal('%s view of a scalar' % case['view'], num('cast', z.cast()), np.full((r, c), 2.5))
