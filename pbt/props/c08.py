import casadi as cs
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
import structwrite as sw
from base import cut, rejects, require, require_equal, num
from props import c03

RULE = ('case = declaration realised by expressions (per entry: expression of symbols, constant, nested list, another struct, '
        'nested struct), by filling an existing declaration in some order, or by given symbols; then reads, replacements of '
        'entries and use as a CasADi column; non-trivial = at least 2 entries or repetitions')
BUDGET = {'quick': 4000, 'thorough': 50000}
CLASSES = ['struct_MX', 'struct_MX', 'struct_SX', 'struct_MX_mutable']
MODEL = {'struct_MX': 'veccat', 'struct_SX': 'fillSX', 'struct_MX_mutable': 'fillMX'}


def strategy(tier):
    @st.composite
    def case(draw):
        mode = draw(st.sampled_from(['expr', 'expr', 'expr', 'fill', 'fill', 'sym', 'input']))
        kinds = sm.NO_SYMM if mode != 'sym' else [k for k in sm.NO_SYMM if k != 'ss']
        spec = draw(sm.decl(depth=1, kinds=tuple(kinds), max_size=60))
        cls = draw(st.sampled_from(CLASSES))
        if mode == 'expr' and cls != 'struct_MX':
            spec['order'] = None                    # these classes have no order argument
        if mode in ('sym', 'input'):
            for it in spec['items']:
                for e in it['group'] if 'group' in it else [it]:
                    e.pop('rep', None)
        d = sm.Decl(spec)
        n = len(d.tops())
        kind = MODEL[cls]
        return {'spec': spec, 'mode': mode, 'cls': cls, 'forms': draw(st.lists(st.integers(0, 7), min_size=1, max_size=6)),
                'order': draw(st.permutations(range(n))), 'reads': draw(st.lists(sm.index(d), min_size=1, max_size=4)),
                'early': draw(st.integers(0, 3)),
                'ops': draw(c03.history([kind], d, False, d.tops(), 4)) if mode in ('expr', 'fill') and draw(st.booleans()) else []}
    return case()


def corpus(tier):
    from props import c01
    for c in c01.corpus(tier):
        if c['cls'] != 'struct' or 'symm' in sm.features(c['spec']):
            continue
        d = sm.Decl(c['spec'])
        n = len(d.tops())
        for cls in ('struct_MX', 'struct_SX', 'struct_MX_mutable'):
            for mode in ('expr', 'fill'):
                if mode == 'expr' and cls != 'struct_MX' and c['spec']['order'] is not None:
                    continue
                for forms in ([0], [2, 0], [1, 3]):
                    yield {'spec': c['spec'], 'mode': mode, 'cls': cls, 'forms': forms, 'order': list(range(n))[::-1],
                           'reads': c['i'], 'early': 1, 'ops': []}


def nested(dims, f, rep=()):
    return f(rep) if not dims else [nested(dims[1:], f, rep + (k,)) for k in range(dims[0])]


def expr_entry(e, d, cls, source, ch, consts, info):
    """entry(name, expr=...) whose elements are those of the column `source` (some replaced by constants)."""
    import casadi_extras as ce
    m = sm.Entry(e)
    form = ch(['expr', 'expr', 'const', 'struct', 'expr'])

    def one(rep):
        c = (e['name'],) + rep
        idx = d.map[c] if c in d.map else np.array(d.prefix(c), dtype=int).reshape(-1, 1)
        x = sm.spmatrix(idx, cls, source)
        if form == 'const':
            pos = [int(v) for v in idx.ravel() if v >= 0]
            consts.update(pos)
            info.label('constant')
            return sm.spmatrix(idx, cs.DM, cs.DM(const_values(d)))
        if form == 'struct' and idx.shape[1] == 1 and (idx >= 0).all() and idx.shape[0] > 0:
            info.label('struct as expression')
            if cls is cs.MX:
                return ce.struct_MX([ce.entry('q%d' % k, expr=x[k]) for k in range(idx.shape[0])])
            return ce.struct_SX([ce.entry('q%d' % k, expr=x[k]) for k in range(idx.shape[0])])
        return x

    kw = {'expr': nested(m.dims, one)}
    if e['kind'] == 'struct':
        kw['struct'] = sm.build(e['struct'])
    elif e['kind'] == 'ss':
        ss = [x if isinstance(x, int) else sm.build(x) for x in e['ss']]
        kw['shapestruct'] = tuple(ss)
    return ce.entry(e['name'], **kw)


def const_values(d):
    return 5000.0 + np.arange(d.size)


def check(case, info):
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
    spec, mode, cname = case['spec'], case['mode'], case['cls']
    d = sm.Decl(spec)
    info.label(mode, *sm.features(spec))
    info.hit(len(d.tops()) >= 2)
    if mode == 'sym':
        return check_sym(case, d, info)
    if mode == 'input':
        return check_input(case, d, info)
    info.label(cname)
    cls = cs.SX if cname == 'struct_SX' else cs.MX
    make = getattr(s3, cname)
    kind = MODEL[cname]
    w = cls.sym('w', d.size)
    base = sm.base_values(d)
    state = base.copy()
    ch = sw.Choices(case['forms'])
    if mode == 'expr':
        source = cls(w) if ch([0, 1]) else 2 * w + 1
        if not cs.is_equal(source, w, 0):
            state = 2 * base + 1
        consts = set()
        items = cut('entries', sm.items, spec, lambda e: expr_entry(e, d, cls, source, ch, consts, info))
        if spec['order'] is not None:
            s = cut(cname, make, items, order=[tuple(o) if isinstance(o, list) else o for o in spec['order']])
        else:
            s = cut(cname, make, items)
        for p in consts:
            state[p] = const_values(d)[p]
    else:
        decl = cut('declaration', sm.build, spec, ['struct', 'symSX', 'symMX'][case['early'] % 3])
        s = cut(cname, make, decl)
        tops = d.tops()
        for k, t in enumerate(case['order']):
            if cname == 'struct_MX' and (k == case['early'] or k == len(tops) - 1):
                info.label('incomplete')
                rejects('flat vector of a struct with missing fields', lambda: s.cat)
                rejects('use of a struct with missing fields', cs.Function, 'f', [w], [s])
            cut('filling %s' % (tops[t],), sm.fill, s, d, d, kind, cls, w, [t])
    o = {'kind': kind, 's': s, 'w': w, 'state': state, 'vals': sw.Values(kind), 'todo': []}
    require(s.size == d.size, 'size %s, expected %d', s.size, d.size)
    require(list(s.keys()) == d.keys, 'keys %s, expected %s', list(s.keys()), d.keys)
    flat = sm.Leaf(np.arange(d.size).reshape(-1, 1))
    c03.note(o, 'flat vector', cls(s.cat), flat)
    for t in case['reads']:
        for n, g, l in sm.pairs(cname + sm.show(t), cut(cname + sm.show(t), s.__getitem__, sm.pyindex(t)), d.get(t)):
            c03.note(o, n, cls(g), l)
    # as a column
    two = cut('vertcat of the struct', cs.vertcat, s, w)
    require(two.shape == (2 * d.size, 1), 'vertcat of the struct has shape %s', two.shape)
    c03.note(o, 'vertcat of the struct', two[:d.size], flat)
    o['todo'].append(('sum of the struct', cut('sum1', cs.sum1, s), np.array([[state.sum()]])))
    o['todo'].append(('function of the struct', cut('-struct', lambda: cs.minus(s, w)), (state - base).reshape(-1, 1)))
    f = cut('Function of the struct', cs.Function, 'f', [w], [s])
    require_equal('Function of the struct', num('f', f(cs.DM(base))), state.reshape(-1, 1))
    hit = info.nontrivial
    c03.run(case['ops'], [o], d, info)
    info.nontrivial = hit


def check_sym(case, d, info):
    import casadi_extras as ce
    ch = sw.Choices(case['forms'])
    given, kept = {}, []

    def make(e):
        m = sm.Entry(e)
        form = ch(['plain', 'sym', 'sym'])
        if form == 'plain':
            return sm.build_entry(e)
        if e['kind'] == 'struct':
            y = sm.build(e['struct'], 'symSX')
            given[e['name']] = y.cat
            kept.append(y)
            info.label('sym struct')
            return ce.entry(e['name'], sym=y)
        x = cs.SX.sym('given_' + e['name'], cs.Sparsity.triplet(m.shape[0], m.shape[1], [p[0] for p in m.nz], [p[1] for p in m.nz]))
        given[e['name']] = x
        info.label('sym')
        return ce.entry(e['name'], sym=x)

    items = cut('entries', sm.items, case['spec'], make)
    kw = {}
    if case['spec']['order'] is not None:
        kw['order'] = [tuple(o) if isinstance(o, list) else o for o in case['spec']['order']]
    s = cut('struct_symSX', ce.struct_symSX, items, **kw)
    require(s.size == d.size, 'size %s, expected %d', s.size, d.size)
    for k, x in given.items():
        got = cut('reading', s.__getitem__, k)
        require(got.sparsity() == x.sparsity() and all(cs.is_equal(a, b, 0) for a, b in zip(got.nonzeros(), x.nonzeros())),
                'entry %s is not the given symbol: %s', k, got)
    require(s.cat.is_valid_input(), 'the flat vector is not purely symbolic')
    base = sm.base_values(d)
    outs, exp = [], []
    for t in case['reads']:
        for n, g, l in sm.pairs(sm.show(t), cut(sm.show(t), s.__getitem__, sm.pyindex(t)), d.get(t)):
            outs.append(g)
            exp.append((n, sm.values(l, base)))
    f = cut('Function of the symbols', cs.Function, 'f', [s], outs)
    for g, (n, e) in zip(f.call([cs.DM(base)]), exp):
        require_equal(n, num(n, g), e)


def check_input(case, d, info):
    """A struct composed of symbols only is a function input."""
    import casadi_extras as ce
    ch = sw.Choices(case['forms'])
    syms = {}

    def make(e):
        m = sm.Entry(e)
        if e['kind'] == 'struct':
            x = cs.MX.sym(e['name'], m.sub.size)
            syms[e['name']] = x
            return ce.entry(e['name'], struct=sm.build(e['struct']), expr=x)
        x = cs.MX.sym(e['name'], *m.shape)
        syms[e['name']] = x
        return ce.entry(e['name'], expr=x)

    if not all(e.sub is not None or e.dense() for e in d.entries.values()) or any(0 in e.dims for e in d.entries.values()):
        return
    items = cut('entries', sm.items, case['spec'], make)
    s = cut('struct_MX', ce.struct_MX, items)
    if case['spec']['order'] is not None:
        return
    require(s.is_valid_input(), 'a struct of symbols is not a valid input')
    require(s.is_column() and s.numel() == d.size and tuple(s.shape) == (d.size, 1), 'the struct is not a column of its size')
    base = sm.base_values(d)
    f = cut('Function of the struct', cs.Function, 'f', [s], list(syms.values()))
    for k, g in zip(syms, f.call([cs.DM(base)])):
        require_equal('symbol %s' % k, num(k, g), sm.values(d.get([['n', k]]), base))
    for k, x in syms.items():
        got = cut('reading', s.__getitem__, k)
        require_equal('entry %s' % k, num(k, cs.Function('g', [s], [got])(cs.DM(base))), sm.values(d.get([['n', k]]), base))
