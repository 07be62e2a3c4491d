import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
from base import cut, rejects, require
from props import c08

RULE = ('case = well-formed declaration, class declaring it, one fault of a fixed list applied at one site (entry at any '
        'nesting level, or the whole declaration); the declaration must be accepted with the modelled size and rejected with '
        'the fault; non-trivial = the fault is applicable at the site')
BUDGET = {'quick': 6000, 'thorough': 60000}
ASSUMPTIONS = ['an order is a permutation of the entry names (an order that omits or repeats entries is not classified)']

ENTRY = ['keyword', 'type', 'no name', 'positional', 'shape+struct', 'struct+shapestruct', 'sym+shape', 'sym+repeat', 'sym+expr',
         'expr+shape', 'expr+repeat', 'repeat', 'shape', 'shapestruct', 'non-square', 'sym', 'expr']
DECL = ['duplicate', 'duplicate', 'order unknown', 'order+group', 'not a list', 'expr in symbolic', 'sym in symMX', 'missing expr']
PLAIN = ['struct', 'symSX', 'symMX']
EXPR = ['struct_SX', 'struct_MX', 'struct_MX_mutable']


def strategy(tier):
    @st.composite
    def case(draw):
        return {'spec': draw(sm.decl(depth=2, max_size=60)), 'cls': draw(st.sampled_from(PLAIN)), 'ecls': draw(st.sampled_from(EXPR)),
                'fault': draw(st.sampled_from(ENTRY + DECL)), 'site': draw(st.integers(0, 11)), 'v': draw(st.integers(0, 23)),
                'at': draw(st.integers(0, 5))}
    return case()


def corpus(tier):
    sc = {'name': 'x', 'kind': 'scalar'}
    specs = [{'items': [sc], 'order': None},
             {'items': [{'name': 'y', 'kind': 'col', 'shape': [2, 1], 'rep': [2]}, sc], 'order': None},
             {'items': [{'name': 'n', 'kind': 'struct', 'struct': {'items': [dict(sc, rep=[2]), {'name': 'm', 'kind': 'mat', 'shape': [2, 3]}],
                                                                  'order': None}}, sc], 'order': None}]
    for spec in specs:
        for f in ENTRY + DECL[1:]:
            for v in range(8):
                for cls, ecls in zip(PLAIN, EXPR):
                    yield {'spec': spec, 'cls': cls, 'ecls': ecls, 'fault': f, 'site': v % 3, 'v': v, 'at': v}


def entries(spec, out=None):
    out = [] if out is None else out
    for it in spec['items']:
        for e in it['group'] if 'group' in it else [it]:
            out.append(e)
            if e['kind'] == 'struct':
                entries(e['struct'], out)
    return out


def pick(v, options):
    return options[v % len(options)]


def small():
    import casadi_extras as ce
    return ce.struct(['p', ce.entry('q', shape=2)])


def corrupt(kw, fault, v, kind):
    """(args after the name or None for no name, keyword arguments) with one fault, or None if not applicable."""
    kw = dict(kw)
    args = ()
    x = cs.SX.sym('s', 2)
    if fault == 'keyword':
        kw[pick(v, ['dim', 'rep', 'size', 'Shape', 'dims', 'expression', 'structure', 'shape_struct', 'name_'])] = pick(v, [2, None, 'x'])
    elif fault == 'type':
        kw['type'] = pick(v, ['sym', 'symmetric', 'diag', 'SYMM', '', 'dense', 'symm ', 'upper'])
    elif fault == 'no name':
        args = None
    elif fault == 'positional':
        args = pick(v, [(2,), ('b',), (None,), ((2, 2),), (2, 3)])
    elif fault == 'shape+struct':
        kw = {'shape': pick(v, [2, 1, 3, (2, 2), (3, 1), cs.Sparsity.dense(3, 1)]), 'struct': small()}
    elif fault == 'struct+shapestruct':
        kw = {'struct': small(), 'shapestruct': pick(v, [small(), (small(),), (small(), 1), (2, small())])}
    elif fault == 'sym+shape':
        kw = {'sym': x, 'shape': pick(v, [2, (2, 1), 1])}
    elif fault == 'sym+repeat':
        kw = {'sym': x, 'repeat': pick(v, [2, [2], [], 1, [2, 2]])}
    elif fault == 'sym+expr':
        kw = {'sym': x, 'expr': pick(v, [x, x + 1, [x], cs.DM([1, 2])])}
    elif fault == 'expr+shape':
        kw = {'expr': pick(v, [x, x + 1, [x, x], cs.MX.sym('m', 2)]), 'shape': pick(v, [2, (2, 1), 1, cs.Sparsity.dense(2, 1)])}
    elif fault == 'expr+repeat':
        kw = {'expr': pick(v, [x, [x, x], cs.MX.sym('m', 2)]), 'repeat': pick(v, [2, [2], 1, []])}
    elif fault == 'repeat':
        kw['repeat'] = pick(v, [2.5, 2.0, 'a', [2, 1.5], [2, '3'], None, (2,), (2, 3), [[2]], [None], np.float64(2), [2, 2, 0.5]])
    elif fault == 'shape':
        if 'struct' in kw or kind == 'symm':
            return None
        kw['shape'] = pick(v, [(), [], (1, 2, 3), [2, 2, 2], 'x', 2.5, None, {2: 2}, (2.5, 1), ('a', 'b'), (1, 1, 1, 1), (None, 1),
                               np.float64(2), (2, 1.5)])
    elif fault == 'shapestruct':
        if 'struct' in kw or 'shape' in kw:
            return None
        s = small()
        kw['shapestruct'] = pick(v, [3, (), (s, s, s), (1, 2, 3), ('a',), (s, 'a'), [s, s], [s], None, (s, 2.5), 'x', (s, None), {s: 1}])
    elif fault == 'non-square':
        kw = {k: w for k, w in kw.items() if k == 'repeat'}
        kw['type'] = 'symm'
        if v % 9 == 8:
            kw['shapestruct'] = pick(v // 9, [(small(), 2), (2, small()), small(), (small(), 1)])
        else:
            kw['shape'] = pick(v, [2, (1, 2), (2, 3), (3, 2), 3, (4, 1), cs.Sparsity.triplet(2, 3, [0, 1], [0, 2]), cs.Sparsity(2, 3), (1, 3)])
    elif fault == 'sym':
        kw = {'sym': pick(v, [2 * x, cs.MX.sym('m'), cs.DM([1, 2]), 5, 'x', None, [x], cs.SX([1, 2]), cs.vertcat(x, 1), cs.MX.sym('m', 2) + 1,
                              cs.vertcat(x[0], x[0] + 1)])}
    elif fault == 'expr':
        kw = {'expr': pick(v, ['x', {'a': x}, [['x']], object(), ['x', x]])}
    else:
        return None
    return args, kw


def variant(e, v):
    """The same entry with arguments of other, equally valid types."""
    import casadi_extras as ce
    kw = sm.entry_kw(e)
    if not kw and v % 2:
        return e['name']
    if v % 3 == 1:
        if isinstance(kw.get('repeat'), int):
            kw['repeat'] = np.int64(kw['repeat'])
        elif isinstance(kw.get('repeat'), list):
            kw['repeat'] = [np.int32(k) for k in kw['repeat']]
        if isinstance(kw.get('shape'), int):
            kw['shape'] = np.int64(kw['shape'])
        elif isinstance(kw.get('shape'), (tuple, list)):
            kw['shape'] = type(kw['shape'])(np.int64(k) for k in kw['shape'])
    elif v % 3 == 2:
        if isinstance(kw.get('shape'), (int, tuple, list)):
            sh = kw['shape'] if not isinstance(kw['shape'], int) else (kw['shape'],)
            kw['shape'] = cs.Sparsity.dense(*sh)
        if 'struct' in kw:
            kw['struct'] = kw['struct'].struct
        if isinstance(kw.get('shapestruct'), tuple):
            kw['shapestruct'] = tuple(s if isinstance(s, int) else s.struct for s in kw['shapestruct'])
    return ce.entry(e['name'], **kw)


def build(spec, cls, make, order=True):
    """Like structmodel.build, with a maker used for every entry at every level."""
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
    it = sm.items(spec, make)
    c = {'struct': s3.struct, 'symSX': s3.struct_symSX, 'symMX': s3.struct_symMX}[cls]
    if spec.get('order') is not None and order:
        return c(it, order=[tuple(o) if isinstance(o, list) else o for o in spec['order']])
    return c(it)


def check(case, info):
    import casadi_extras as ce
    spec, fault, v = case['spec'], case['fault'], case['v']
    d = sm.Decl(spec)
    info.label(fault, case['cls'], *sm.features(spec))
    s = cut('well-formed declaration', build, spec, case['cls'], lambda e: variant(e, v))
    require(s.size == d.size, 'size %s of a well-formed declaration, expected %d', s.size, d.size)
    require(list(s.keys()) == d.keys, 'keys %s, expected %s', list(s.keys()), d.keys)

    if fault in ENTRY:
        es = entries(spec)
        site = es[case['site'] % len(es)]
        bad = corrupt(sm.entry_kw(site), fault, v, site['kind'])
        if bad is None:
            return
        info.hit()
        args, kw = bad
        what = 'entry(%s%s)' % ('' if args is None else repr(site['name']),
                                ''.join([', %r' % (a,) for a in args or ()] + [', %s=%r' % k for k in kw.items()]))

        def declare():
            e = ce.entry(*(() if args is None else (site['name'],) + args), **kw)
            ce.struct([e])
        rejects(what, declare)
        return
    declaration_fault(case, d, info)


def raw(spec, cls, its, **kw):
    from casadi_extras import structure3 as s3
    return {'struct': s3.struct, 'symSX': s3.struct_symSX, 'symMX': s3.struct_symMX}[cls](its, **kw)


def declaration_fault(case, d, info):
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
    spec, fault, v, at, cls = case['spec'], case['fault'], case['v'], case['at'], case['cls']
    its = sm.items(spec)
    names = [e['name'] for it in spec['items'] for e in (it['group'] if 'group' in it else [it])]
    order = None if spec['order'] is None else [tuple(o) if isinstance(o, list) else o for o in spec['order']]
    okw = {} if order is None else {'order': order}
    grouped = any('group' in it for it in spec['items'])
    if fault == 'duplicate':
        n = pick(v, names)
        twin = pick(v // 2, [n, ce.entry(n), ce.entry(n, shape=3), ce.entry(n, repeat=2), ce.entry(n, struct=small())])
        how = at % 3
        if how == 0:
            its.insert(case['site'] % (len(its) + 1), twin)
        elif how == 1:
            its.append((twin, 'other'))
        else:
            k = case['site'] % len(its)
            its[k] = (its[k] if isinstance(its[k], tuple) else (its[k],)) + (twin,)
        if how and order is not None:
            okw = {}
        info.hit()
        rejects('declaration with two entries %r' % n, raw, spec, cls, its, **okw)
    elif fault == 'order unknown':
        if grouped:
            return
        o = list(order or names)
        bad = pick(v, ['nope', 'X', names[0] + '_', '', 'a b'])
        k = case['site'] % len(o)
        how = at % 3
        if how == 0:
            o.insert(k, bad)
        elif how == 1:
            o[k] = bad
        else:
            o[k] = (o[k] if isinstance(o[k], tuple) else (o[k],)) + (bad,)
        info.hit()
        rejects('order %s' % (o,), raw, spec, cls, its, order=o)
    elif fault == 'order+group':
        if not grouped:
            k = case['site'] % len(its)
            its[k] = (its[k],)
        info.hit()
        rejects('order together with tuple grouping', raw, spec, cls, its, order=pick(v, [names, names[::-1]]))
    elif fault == 'not a list':
        arg = pick(v, [lambda: tuple(its), lambda: {n: i for n, i in zip(names, its)}, lambda: None, lambda: iter(its), lambda: 'ab',
                       lambda: 3, lambda: set(names), lambda: np.array(names), lambda: names[0]])()
        info.hit()
        rejects('entries given as %s' % type(arg).__name__, raw, spec, cls, arg)
    elif fault in ('expr in symbolic', 'sym in symMX'):
        t = {'expr in symbolic': pick(at, ['symSX', 'symMX']), 'sym in symMX': 'symMX'}[fault]
        if fault == 'expr in symbolic':
            e = ce.entry('zz', expr=pick(v, [cs.SX.sym('a', 2), cs.MX.sym('a', 2), cs.SX.sym('a', 2) * 2, cs.DM([1, 2]), [cs.SX.sym('a')] * 2,
                                             cs.MX.sym('a', 2) + 1]))
        else:
            e = ce.entry('zz', sym=pick(v, [cs.SX.sym('a'), cs.SX.sym('a', 2, 2), ce.struct_symSX(['a', 'b'])]))
        k = case['site'] % (len(its) + 1)
        if grouped and at % 2 or k == len(its) and at % 3 == 0:
            its.append((e, 'yy'))
        else:
            its.insert(k, e)
        info.hit()
        rejects('%s with entry %r given by %s' % (t, 'zz', fault.split()[0]), raw, spec, t, its)
    elif fault == 'missing expr':
        # an expression struct of the same entries, one without its expression
        if 'symm' in sm.features(spec):
            return
        cname = case['ecls']
        kind = cs.SX if cname == 'struct_SX' else cs.MX
        w = kind.sym('w', d.size)
        import structwrite as sw
        make = lambda e: c08.expr_entry(e, d, kind, w, sw.Choices([0]), set(), info)
        its = sm.items(spec, make)
        if order is None:
            cut('%s of expressions' % cname, getattr(s3, cname), its)
        plain = pick(v, ['zz', ce.entry('zz'), ce.entry('zz', shape=2), ce.entry('zz', struct=small()), ce.entry('zz', repeat=2),
                         ce.entry('zz', sym=cs.SX.sym('q'))])
        k = case['site'] % (len(its) + 1)
        if at % 3 == 2:
            its.insert(k, (plain, make_const('yy', kind)))
        else:
            its.insert(k, plain)
        info.hit()
        rejects('%s with an entry without expression' % cname, getattr(s3, cname), its)


def make_const(name, kind):
    import casadi_extras as ce
    return ce.entry(name, expr=kind(1))
