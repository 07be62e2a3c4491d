import os
import pickle
import shutil
import tempfile

import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
import structwrite as sw
from base import cut, require, require_equal, num
from props import c03, c05

RULE = ('case = 1-2 declarations, up to 4 struct objects (declarations or numeric) sharing them, and 1-3 serialisations (alone, '
        'together, through a file); every loaded object is compared with the model (layout, labels, lookups, values), then '
        'originals and loaded objects go through a history of assignments; some cases do the same with a matrix view; '
        'non-trivial = at least 2 objects or 2 rounds')
BUDGET = {'quick': 2400, 'thorough': 30000}
KINDS = ['DM', 'DM', 'DM', 'struct', 'raw', 'symSX', 'symMX']


def strategy(tier):
    views = c05.strategy(tier).map(numeric)

    @st.composite
    def case(draw):
        specs = draw(st.lists(sm.decl(depth=2, max_size=40, max_entries=3), min_size=1, max_size=2))
        objs = draw(st.lists(st.tuples(st.integers(0, len(specs) - 1), st.sampled_from(KINDS)).map(list), min_size=1, max_size=4))
        rounds = draw(st.lists(st.tuples(st.sampled_from(['alone', 'together', 'dict', 'file', 'twice']), st.integers(0, 5)).map(list),
                               min_size=1, max_size=3))
        ops = {}
        for k in range(len(specs)):
            n = sum(1 for o in objs if o[0] == k and o[1] == 'DM')
            if n:
                d = sm.Decl(specs[k])
                ops[str(k)] = draw(c03.history(['DM'] * (2 * n), d, c03.has_symm(specs[k]), d.tops(), 4))
        return {'specs': specs, 'objs': objs, 'rounds': rounds, 'ops': ops,
                'view': draw(views) if draw(st.integers(0, 3)) == 0 else None}
    return case()


def corpus(tier):
    from props import c01
    seen = [c['spec'] for c in c01.corpus(tier) if c['cls'] == 'struct']
    for k, spec in enumerate(seen):
        d = sm.Decl(spec)
        ops = {'0': [{'o': o, 'idx': [['n', key]], 'ch': [0, 1, 1], 'read': [['nd']]} for o in range(4) for key in d.keys]}
        for rounds in ([['alone', 2]], [['together', 4], ['alone', 2]], [['file', 2], ['together', 0]], [['twice', 3]]):
            yield {'specs': [spec], 'objs': [[0, 'DM'], [0, 'DM'], [0, 'struct'], [0, 'raw']], 'rounds': rounds, 'ops': ops}
        yield {'specs': [spec, seen[(k + 1) % len(seen)]], 'objs': [[0, 'DM'], [1, 'DM'], [1, 'symSX'], [0, 'symMX']],
               'rounds': [['together', 2], ['dict', 2]], 'ops': {}}
    for v in c05.corpus(tier):
        if v['kinds'] == ['DM', 'DM']:
            for rounds in ([['alone', 2]], [['together', 4], ['alone', 2]]):
                yield {'specs': [v['a']], 'objs': [[0, 'DM']], 'rounds': rounds, 'ops': {}, 'view': numeric(v)}


def numeric(view):
    """The case of C05 for a numeric matrix and two views of it: the original and the loaded one."""
    return dict(view, kinds=['DM', 'DM'], ops=[dict(op, o=op['o'] % 2) for op in view['ops']])


def check_view(case, info, tmp):
    v = case['view']
    d = sm.Decl(c05.view_spec(v))
    r, c = c05.shape(v)
    struct = cut('declaration', sm.build, v['a'])
    other = cut('declaration', sm.build, v['b']) if v['b'] is not None else None
    base = sm.base_values(d)
    orig = loaded = cut('%s view' % v['view'], c05.make, v, struct, other, cs.DM(base.reshape((r, c), order='F')))
    for how, proto in case['rounds']:
        loaded = cut('serialisation of a %s view (%s, protocol %d)' % (v['view'], how, proto), serialise, [struct, loaded], how,
                     proto, tmp)[1]
    objs = [{'kind': 'DM', 's': c05.Adapter(o), 'w': None, 'state': base.copy(), 'vals': sw.Values('DM'), 'todo': []}
            for o in (orig, loaded)]
    for o in objs:
        o['vals'].sparse = False
        require_equal('matrix of the view after serialising', num('cast', o['s'].view.cast()), base.reshape((r, c), order='F'))
    hit = info.nontrivial
    c03.run(v['ops'], objs, d, info)
    info.nontrivial = hit
    for w, o in zip(('original', 'loaded'), objs):
        require_equal('matrix of the %s view' % w, num('cast', o['s'].view.cast()), o['state'].reshape((r, c), order='F'))
    info.label('view ' + v['view'])


def serialise(objs, how, proto, tmp):
    from casadi_extras.structure3 import struct_load
    if how == 'together':
        return list(pickle.loads(pickle.dumps(list(objs), proto)))
    if how == 'dict':
        r = pickle.loads(pickle.dumps({'k%d' % k: (o, k) for k, o in enumerate(objs)}, proto))
        return [r['k%d' % k][0] for k in range(len(objs))]
    if how == 'twice':                              # everything written twice before anything is read
        p = [pickle.dumps(o, proto) for o in objs]
        q = [pickle.dumps(o, proto) for o in reversed(objs)][::-1]
        for b in p:
            pickle.loads(b)
        return [pickle.loads(b) for b in q]
    out = []
    for k, o in enumerate(objs):
        if how == 'file' and hasattr(o, 'save'):
            f = os.path.join(tmp, 's%d' % k)
            o.save(f)
            out.append((f, None))
        else:
            out.append((None, pickle.dumps(o, proto)))
    return [struct_load(f) if f else pickle.loads(b) for f, b in out]


def same_layout(what, s, d):
    require(s.size == d.size, '%s: size %s, expected %d', what, s.size, d.size)
    require(list(s.keys()) == d.keys, '%s: keys %s, expected %s', what, list(s.keys()), d.keys)
    for mode in (0, 1, 2):
        exp = ['[' + ','.join(map(str, c + (() if mode == 0 else (k,) if mode == 1 else p))) + ']' for c, k, p in d.table]
        got = cut('%s: labels(%d)' % (what, mode), s.labels, mode)
        require(list(got) == exp, '%s: labels(%d) %s, expected %s', what, mode, got, exp)


def same_lookup(what, s, up):
    from props.c01 import filled
    for w, g, l in sm.pairs('%s: .i' % what, cut('%s: .i' % what, s.i.__getitem__, Ellipsis), up.get([['...']])):
        require_equal(w, filled(cs.DM(g)), l.idx)


def check(case, info):
    specs = case['specs']
    ds = [sm.Decl(s) for s in specs]
    ups = [sm.Decl(s, upper=True) for s in specs]
    info.hit(len(case['objs']) >= 2 or len(case['rounds']) >= 2)
    decls = [cut('declaration', sm.build, s) for s in specs]
    objs = []
    for k, (i, kind) in enumerate(case['objs']):
        info.label('kind ' + kind)
        if kind == 'DM':
            o = cut('cast', decls[i], cs.DM(sm.base_values(ds[i]) + 1000 * k))
        elif kind == 'struct':
            o = decls[i]
        elif kind == 'raw':
            o = decls[i].struct
        else:
            o = cut('declaration', sm.build, specs[i], kind)
        objs.append(o)
    loaded = objs
    tmp = tempfile.mkdtemp(prefix='c07-')
    try:
        for how, proto in case['rounds']:
            info.label('round ' + how)
            loaded = cut('serialisation (%s, protocol %d)' % (how, proto), serialise, loaded, how, proto, tmp)
        if case.get('view'):
            check_view(case, info, tmp)
    finally:
        shutil.rmtree(tmp)
    for what, group in (('original after serialising', objs), ('loaded', loaded)):
        for k, (o, (i, kind)) in enumerate(zip(group, case['objs'])):
            w = '%s object %d (%s)' % (what, k, kind)
            require(type(o) is type(objs[k]), '%s: is a %s instead of a %s', w, type(o).__name__, type(objs[k]).__name__)
            same_layout(w, o, ds[i])
            same_lookup(w, o, ups[i])
            if kind == 'DM':
                require_equal('%s: values' % w, num(w, o.cat).ravel(), sm.base_values(ds[i]) + 1000 * k)
            else:
                v = cut('%s: cast' % w, o, cs.DM(sm.base_values(ds[i])))
                for n, g, l in sm.pairs(w, cut('%s: reading' % w, v.__getitem__, Ellipsis), ds[i].get([['...']])):
                    require_equal(n, num(n, g), sm.values(l, sm.base_values(ds[i])))
                if kind.startswith('sym'):
                    e = cs.vertcat(*[o[tuple(c)] for c in o.canonicalIndices(2)])
                    f = cut('%s: Function of the symbols' % w, cs.Function, 'f', [o.cat], [e])
                    require_equal(w, num(w, f(cs.DM(sm.base_values(ds[i])))).ravel(), sm.base_values(ds[i]))
    for i, ops in case['ops'].items():
        group = []
        for g in (objs, loaded):
            for k, (o, (j, kind)) in enumerate(zip(g, case['objs'])):
                if kind == 'DM' and j == int(i):
                    group.append({'kind': 'DM', 's': o, 'w': None, 'state': sm.base_values(ds[j]) + 1000.0 * k,
                                  'vals': sw.Values('DM'), 'todo': []})
        if group:
            hit = info.nontrivial
            c03.run([dict(op, o=op['o'] % len(group)) for op in ops], group, ds[int(i)], info)
            info.nontrivial = hit
