import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
import structwrite as sw
from base import cut, rejects, require, require_equal, num

RULE = ('case = declaration, 1-3 mutable structs (numbers, SX, MX, composed field by field) created from it, and up to 8 '
        'assignments (index expression, payload form) or rejected assignments, with reads in between; all structs are compared '
        'with the model after every step; non-trivial = at least 2 successful assignments to the same declaration')
BUDGET = {'quick': 3600, 'thorough': 40000}
KINDS = ['DM', 'DM', 'SX', 'MX', 'veccat', 'fillSX', 'fillMX']


def has_symm(spec):
    return 'symm' in sm.features(spec)


@st.composite
def history(draw, kinds, d, symm, tops, max_ops=8):
    ops = []
    for _ in range(draw(st.sampled_from([2, 3, 4, 5, 6, 7, 8][:max_ops - 1]))):
        o = draw(st.integers(0, len(kinds) - 1))
        veccat = kinds[o] == 'veccat'
        t = draw(sm.index(d, functions=not symm and not veccat, elements=not veccat, unique=True))
        ok = writable(d, t, tops if veccat else None)
        if not ok:
            t = [['n', d.keys[0]]] if not veccat else [sm_tok(x) for x in tops[draw(st.integers(0, len(tops) - 1))]]
        op = {'o': o, 'idx': t, 'ch': draw(st.lists(st.integers(0, 11), min_size=1, max_size=8)),
              'read': draw(sm.index(d))}
        k = draw(st.integers(0, 11))
        if k == 0:
            op['bad'] = 'sparsity' if veccat and draw(st.booleans()) else 'shape'
        elif k == 1:
            op['bad'] = 'index'
            op['idx'] = draw(sm.bad_index(d))
        elif k == 2:
            op['prefix'] = draw(st.integers(0, 3))
        ops.append(op)
    return ops


def sm_tok(x):
    return ['n', x] if isinstance(x, str) else ['i', x]


def writable(d, t, tops):
    tree = d.get(t)
    ls = sm.leaves(tree)
    if any(x[0] == 'f' for x in t) and not isinstance(tree, sm.Leaf):
        return False
    used = [v for l in ls for v in set(l.idx.ravel()) if v >= 0]
    if len(used) != len(set(used)):
        return False                           # the same slot addressed twice in one assignment
    for l in ls:
        w = [v for v in l.idx.ravel() if v >= 0]
        if not l.symm and len(w) != len(set(w)):
            return False
    if tops is not None:
        return all(x[0] != 'nd' for x in t) and all(l.canon in tops and l.extra is None for l in ls)
    return True


def strategy(tier):
    @st.composite
    def case(draw):
        spec = draw(sm.decl(depth=2, max_size=80))
        d = sm.Decl(spec)
        kinds = draw(st.lists(st.sampled_from(KINDS), min_size=1, max_size=3))
        return {'spec': spec, 'kinds': kinds, 'ops': draw(history(kinds, d, has_symm(spec), d.tops())),
                'short': draw(st.lists(sm.index(d, functions=False), max_size=2))}
    return case()


def corpus(tier):
    from props import c01
    for c in c01.corpus(tier):
        if c['cls'] != 'struct':
            continue
        d = sm.Decl(c['spec'])
        for kinds in (['DM', 'DM'], ['SX', 'fillSX'], ['MX', 'fillMX'], ['veccat', 'veccat']):
            ops = []
            for k, t in enumerate(d.tops()):
                ops.append({'o': k % 2, 'idx': [sm_tok(x) for x in t], 'ch': [k % 4, 1, 2], 'read': [['...']]})
            for key in d.keys:
                for ch in ([0, 1, 1], [2, 1, 1]):
                    ops.append({'o': 0, 'idx': [['n', key]], 'ch': ch, 'read': [['nd']]})
            if kinds[0] != 'veccat':
                ops.append({'o': 1, 'idx': [sm_tok(x) for x in d.leaves[-1][0]], 'ch': [0], 'read': [['...']], 'bad': 'shape'})
            if kinds[0] == 'veccat':
                ops.append({'o': 1, 'idx': [sm_tok(x) for x in d.tops()[-1]], 'ch': [0], 'read': [['...']], 'bad': 'sparsity'})
            yield {'spec': c['spec'], 'kinds': kinds, 'ops': ops, 'short': [[['n', k]] for k in d.keys] + [[['...']]]}


def create(kind, spec, decl, d):
    """(struct, symbol of its initial flat vector, initial values)"""
    base = sm.base_values(d)
    s, w = sm.stored(spec, kind, decl)
    return s, w, base


def check(case, info):
    spec = case['spec']
    d = sm.Decl(spec)
    decl = cut('declaration', sm.build, spec)
    info.label(*['kind ' + k for k in case['kinds']])
    objs = []
    for kind in case['kinds']:
        s, w, base = cut('construction of %s' % kind, create, kind, spec, decl, d)
        objs.append({'kind': kind, 's': s, 'w': w, 'state': base.copy(), 'vals': sw.Values(kind), 'todo': []})
    run(case['ops'], objs, d, info)
    for t in case.get('short', []):
        short_list(case['kinds'][0], spec, decl, d, t, info)


def short_list(kind, spec, decl, d, t, info):
    """A list with fewer elements than the repetitions (or names) it is assigned to."""
    tree = d.get(t)
    if kind == 'veccat' or not isinstance(tree, list) or not tree.raw or min(tree.raw) < 0:
        return
    info.label('short list')
    s = cut('construction of %s' % kind, create, kind, spec, decl, d)[0]
    n = max(tree.raw)
    rejects('%s%s = list of %d elements' % (kind, sm.show(t), n), s.__setitem__, sm.pyindex(t), [float(k) for k in range(n)])


def run(ops, objs, d, info):
    done = 0
    for op in ops:
        o = objs[op['o']]
        s, vals, kind = o['s'], o['vals'], o['kind']
        ch = sw.Choices(op['ch'])
        py = sm.pyindex(op['idx'])
        what = '%s%s = ...' % (kind, sm.show(op['idx']))
        if op.get('bad') and o.get('sparse'):
            continue        # a rejected assignment corrupts a CasADi matrix which has structural zeros, see DESIGN.md
        if op.get('bad') == 'index':
            info.label('bad index')
            if kind == 'veccat':
                v = vals.matrix(np.array([vals.new(1)]))
            else:
                v = 5.0
            single = all(t[0] in ('n', 'i') for t in op['idx'])
            if not single:
                continue
            rejects(what, s.__setitem__, py, v)
        elif op.get('bad') == 'shape':
            tree = d.get(op['idx'])
            if not isinstance(tree, sm.Leaf) or tree.idx.size == 0:
                continue
            info.label('bad shape')
            m, shape = sw.wrong_shape(tree, ch, vals)
            rejects('%s with a %s matrix for a %s target' % (what, shape, tree.idx.shape), s.__setitem__, py, m)
        elif op.get('bad') == 'sparsity':
            tree = d.get(op['idx'])
            if not isinstance(tree, sm.Leaf) or tree.idx.size == 0 or tree.symm == (kind == 'veccat'):
                continue
            if tree.symm and (tree.extra == 1 or tree.idx.size < 2):
                continue
            info.label('bad sparsity')
            rejects('%s with a matrix of other sparsity' % what, s.__setitem__, py, sw.wrong_sparsity(tree, ch, vals))
        else:
            tree = d.get(op['idx'])
            if any(t[0] == 'f' for t in op['idx']):
                tree = sm.Leaf(tree.idx)         # what a function returns is assigned as one matrix
            assigned, labels = [], set()
            try:
                p = sw.payload([tree], ch, vals, kind == 'veccat', assigned, labels)
            except sw.Retry:
                continue
            info.label(*['payload ' + l for l in labels])
            o['sparse'] = o.get('sparse') or 'sparse matrix' in labels
            info.label(*['token ' + t[0] for t in op['idx']])
            if 'prefix' in op and len(op['idx']) > 1 and kind != 'veccat':
                k = 1 + op['prefix'] % (len(op['idx']) - 1)
                pre = cut('prefix', s.prefix.__getitem__, sm.pyindex(op['idx'][:k]))
                cut(what + ' through a prefix', pre.__setitem__, sm.pyindex(op['idx'][k:]), p)
                info.label('prefix')
            else:
                cut(what, s.__setitem__, py, p)
            sw.assign(o['state'], assigned, vals)
            done += 1
            for w, g, l in sm.pairs('%s read back' % what, cut('%s read back' % what, s.__getitem__, py), tree):
                note(o, w, g, l)
        for j, q in enumerate(objs):
            flat = sm.Leaf(np.arange(d.size).reshape(-1, 1))
            note(q, 'flat vector of struct %d (%s) after %s' % (j, q['kind'], what), q['s'].cat, flat)
            r = '%s%s after %s' % (q['kind'], sm.show(op['read']), what)
            for w, g, l in sm.pairs(r, cut(r, q['s'].__getitem__, sm.pyindex(op['read'])), d.get(op['read'])):
                note(q, w, g, l)
    info.hit(done >= 2)
    for o in objs:
        if o['todo']:
            f = cut('Function of what was read', cs.Function, 'f', [o['w'], o['vals'].sym], [g for _, g, _ in o['todo']])
            got = cut('evaluation', f.call, [cs.DM(sm.base_values(d)), cs.DM(o['vals'].num)])
            for g, (w, _, exp) in zip(got, o['todo']):
                require_equal(w, num(w, g), exp)


def note(o, what, got, leaf):
    """Compare now (numbers) or later together (expressions)."""
    exp = sm.values(leaf, o['state'])
    if o['w'] is None:
        require_equal(what, num(what, got), exp)
    else:
        o['todo'].append((what, type(got)(got), exp))
