import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
import structwrite as sw
from base import cut, require, require_equal, num
from props import c02, c03

RULE = ('case = declaration with symmetric entries (dense or sparse pattern, shaped by a struct, repeated, nested), storage kinds, reads of whole '
        'entries, elements and blocks, and a history of assignments (symmetric matrices, scalars, elements, blocks, rejected '
        'sparsities); non-trivial = some symmetric entry with n >= 2 that is addressed by element or block')
BUDGET = {'quick': 4000, 'thorough': 50000}
DECL = ['symm', 'symm', 'symm', 'symm', 'scalar', 'col', 'struct']


@st.composite
def symm_index(draw, d, write=False):
    """Mostly elements and blocks of symmetric entries."""
    ls = [(c, e) for c, e, _ in d.leaves if e.symm]
    if draw(st.integers(0, 4)) == 0 or not ls:
        return draw(sm.index(d, functions=False, unique=write))
    c, e = draw(st.sampled_from(ls))
    n = e.shape[0]
    t = [c03.sm_tok(x) for x in c]
    k = draw(st.sampled_from(['whole', 'ij', 'ij', 'block', 'block', 'one']))
    if k == 'whole':
        return t
    if k == 'ij':
        return t + [['i', draw(st.integers(-n, n - 1))], ['i', draw(st.integers(-n, n - 1))]]
    if k == 'one':
        return t + [['i', draw(st.integers(-n * n, n * n - 1))]]
    ss = e.ss or [None, None]
    t = t + [draw(sm.axis(n, ss[0], write)), draw(sm.axis(n, ss[1], write))]
    try:
        d.get(t)
    except sm.Invalid:
        return t[:-2]
    return t


def strategy(tier):
    @st.composite
    def case(draw):
        spec = draw(sm.decl(depth=1, kinds=tuple(DECL), max_entries=3, maxrep=2, max_size=60))
        if 'symm' not in sm.features(spec):
            spec['items'].append({'name': 'P', 'kind': 'symm', 'shape': [3, 3]})
            spec['order'] = None
        d = sm.Decl(spec)
        kinds = draw(st.lists(st.sampled_from(c03.KINDS), min_size=1, max_size=2))
        ops = []
        for _ in range(draw(st.sampled_from([1, 2, 3, 4, 5, 6]))):
            o = draw(st.integers(0, len(kinds) - 1))
            if kinds[o] == 'veccat':
                tops = d.tops()
                t = [c03.sm_tok(x) for x in draw(st.sampled_from(tops))]
            else:
                t = draw(symm_index(d, True))
                if not c03.writable(d, t, None):
                    t = [['n', d.keys[0]]]
            op = {'o': o, 'idx': t, 'ch': draw(st.lists(st.integers(0, 11), min_size=1, max_size=6)), 'read': draw(symm_index(d))}
            k = draw(st.integers(0, 7))
            if k < 2:
                op['bad'] = ['sparsity', 'shape'][k]
            ops.append(op)
        return {'spec': spec, 'kinds': kinds, 'ops': ops,
                'rkinds': draw(st.lists(st.sampled_from(sm.KINDS), min_size=1, max_size=3, unique=True)),
                'reads': draw(st.lists(symm_index(d), min_size=1, max_size=6))}
    return case()


def corpus(tier):
    pats = [None, [[0, 0], [1, 1], [0, 1], [1, 0]], [[0, 0], [2, 2], [0, 2], [2, 0]], [[1, 1]], [[0, 1], [1, 0]]]
    for p in pats:
        for rep in (None, [2]):
            e = {'name': 'P', 'kind': 'symm', 'shape': [3, 3]}
            if p:
                e['nz'] = p
            if rep:
                e['rep'] = rep
            spec = {'items': [{'name': 'a', 'kind': 'scalar'}, e, {'name': 'b', 'kind': 'scalar'}], 'order': None}
            pre = [['n', 'P']] + ([['i', 1]] if rep else [])
            el = [pre + [['i', i], ['i', j]] for i in range(3) for j in range(3)]
            el += [pre + [['s', None, None, None], ['i', 1]], pre + [['l', [2, 0]], ['l', [1]]], pre + [['l', [0, 1]], ['l', [1, 2]]],
                   pre + [['i', 0], ['s', None, None, None]], pre] + [pre + [['i', k]] for k in range(9)]
            for kind in ('DM', 'SX', 'MX'):
                ops = [{'o': 0, 'idx': t, 'ch': [1], 'read': pre} for t in el]
                ops += [{'o': 0, 'idx': t, 'ch': [0], 'read': pre} for t in el]
                ops += [{'o': 0, 'idx': pre, 'ch': [k, k], 'read': pre, 'bad': 'sparsity'} for k in (0, 1)]
                yield {'spec': spec, 'kinds': [kind], 'ops': ops, 'rkinds': sm.KINDS, 'reads': el}


def check(case, info):
    spec = case['spec']
    d = sm.Decl(spec)
    c02.check({'spec': spec, 'kinds': case['rkinds'], 'idx': [[t, 0] for t in case['reads']], 'bad': []}, info)
    info.nontrivial = False
    s = cut('declaration', sm.build, spec)
    require(s.size == d.size, 'size %s, expected %d (one triangle of symmetric entries)', s.size, d.size)
    c03.check({'spec': spec, 'kinds': case['kinds'], 'ops': case['ops']}, info)
    info.nontrivial = False
    for t in case['reads'] + [o['idx'] for o in case['ops']]:
        for l in sm.leaves(d.get(t)):
            if l.symm and l.entry.shape[0] >= 2 and l.extra:
                info.hit()
                info.label('block' if l.idx.size > 1 else 'element')
