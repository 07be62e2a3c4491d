import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
from base import cut, rejects, require, require_equal, num

RULE = ('case = struct declaration, storage kinds (numbers, SX/MX expressions, SX/MX symbols, field-wise composed), up to 6 '
        'valid index expressions, prefix splits, and up to 2 invalid ones; every storage kind answers every index; '
        'non-trivial = some index with at least 2 tokens')
BUDGET = {'quick': 4000, 'thorough': 50000}


def strategy(tier):
    @st.composite
    def case(draw):
        spec = draw(sm.decl(depth=3 if tier == 'thorough' else draw(st.sampled_from([2, 2, 2, 2, 3]))))
        d = sm.Decl(spec)
        return {'spec': spec, 'kinds': draw(st.lists(st.sampled_from(sm.KINDS), min_size=1, max_size=3, unique=True)),
                'idx': draw(st.lists(st.tuples(sm.index(d), st.integers(0, 3)).map(list), min_size=1, max_size=6)),
                'bad': draw(st.lists(sm.bad_index(d), max_size=2))}
    return case()


def corpus(tier):
    from props import c01
    for k, c in enumerate(c01.corpus(tier)):
        if c['cls'] != 'struct':
            continue
        d = sm.Decl(c['spec'])
        idx = [[t, 0] for t in c['i']] + [[list(map(tok, p)), 1] for p, _, _ in d.leaves[:6]]
        idx += [[list(map(tok, p)) + [['i', -1], ['i', 0]], 1] for p, _, _ in d.leaves[-3:]]
        idx += [[[['{}']], 0]] + [[[['f', 'rev'], ['...']], 0]]
        yield {'spec': c['spec'], 'kinds': sm.KINDS, 'idx': idx, 'bad': [[['n', 'nosuch']], [['n', d.keys[0]], ['i', 99]]]}


def tok(x):
    return ['n', x] if isinstance(x, str) else ['i', x]


def check(case, info):
    spec = case['spec']
    d = sm.Decl(spec)
    info.label(*sm.features(spec))
    base = sm.base_values(d)
    for kind in case['kinds']:
        info.label('kind ' + kind)
        s, w = cut('construction of %s' % kind, sm.stored, spec, kind)
        todo = []
        for t, split in case['idx']:
            tree = d.get(t)
            info.hit(len(t) >= 2)
            info.label(*['token ' + x[0] for x in t])
            what = '%s %s' % (kind, sm.show(t))
            todo += sm.pairs(what, cut(what, s.__getitem__, sm.pyindex(t)), tree)
            k = 1 + split % len(t)
            # a prefix, then the rest of the index
            p = cut('%s prefix' % what, s.prefix.__getitem__, sm.pyindex(t[:k]))
            if k < len(t):
                todo += sm.pairs('%s with prefix' % what, cut('%s with prefix' % what, p.__getitem__, sm.pyindex(t[k:])), tree)
            else:
                todo += sm.pairs('%s as prefix' % what, cut('%s as prefix' % what, p), tree)
        for t in case['bad']:
            info.label('rejected')
            rejects('%s%s' % (kind, sm.show(t)), s.__getitem__, sm.pyindex(t))
        todo.append(('%s flat vector' % kind, s.cat, sm.Leaf(np.arange(d.size).reshape(-1, 1))))
        if w is None:
            got = [num(n, g) for n, g, _ in todo]
        else:
            f = cut('Function of what was read', cs.Function, 'f', [w], [g for _, g, _ in todo])
            got = [num('value', g) for g in cut('evaluation', f.call, [cs.DM(base)])]
        for g, (n, _, leaf) in zip(got, todo):
            require_equal(n, g, sm.values(leaf, base))
