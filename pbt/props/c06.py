import casadi as cs
import casadi_extras as ce
import numpy as np
from hypothesis import strategies as st

import structmodel as sm
import structwrite as sw
from base import cut, rejects, require, require_equal, num

RULE = ('case = declaration (declared as struct, SX or MX symbols), one kind of data (vector, `data` argument, scalar, dict, matrix) with its '
        'container, values, or data that does not fit; non-trivial = struct of at least 2 slots')
BUDGET = {'quick': 6000, 'thorough': 80000}
MODES = ['vector', 'data', 'scalar', 'dict', 'dict', 'parse', 'parse', 'badvec', 'baddict', 'badparse']
VEC = ['DM', 'array', 'array2', 'list', 'ints', 'SX', 'MX', 'SXexpr', 'sparse',
       'struct of DM', 'struct of SX', 'struct of MX', 'struct_symSX', 'struct_symMX', 'struct_SX', 'struct_MX']


def strategy(tier):
    @st.composite
    def case(draw):
        spec = draw(sm.decl(depth=2, max_size=80))
        return {'spec': spec, 'cls': draw(st.sampled_from(['struct', 'symSX', 'symMX', 'raw', 'DM'])),
                'mode': draw(st.sampled_from(MODES)), 'as': draw(st.sampled_from(VEC)), 'cols': draw(st.integers(1, 4)),
                'ch': draw(st.lists(st.integers(0, 11), min_size=1, max_size=8)), 'twice': draw(st.booleans())}
    return case()


def corpus(tier):
    from props import c01
    for c in c01.corpus(tier):
        for mode in sorted(set(MODES)):
            for how in (VEC if mode in ('vector', 'data') else ['DM', 'array']):
                yield {'spec': c['spec'], 'cls': c['cls'], 'mode': mode, 'as': how, 'cols': 3, 'ch': [0, 1, 2, 3], 'twice': True}


def vector(v, how):
    """(the object to cast, symbol or None)"""
    n = len(v)
    if how == 'array':
        return np.array(v), None
    if how == 'array2':
        return np.array(v).reshape(-1, 1), None
    if how == 'list':
        return [float(x) for x in v], None
    if how == 'ints':
        return [int(x) for x in v], None
    if how == 'SX':
        w = cs.SX.sym('w', n)
        return cs.SX(w), w
    if how == 'SXexpr':
        w = cs.SX.sym('w', n)
        return cs.vertcat(*[w[k] * 2 - w[k] for k in range(n)]), w
    if how == 'MX':
        w = cs.MX.sym('w', n)
        return w * 2 - w, w
    if how == 'sparse':
        d = cs.DM(v)
        d[0] = 0
        return cs.sparsify(d), None
    if how.startswith('struct'):
        return other_struct(v, how)
    return cs.DM(v), None


def other_struct(v, how):
    """Another struct of the same size as the object to cast."""
    n = len(v)
    entries = [ce.entry('head'), ce.entry('rest', shape=n - 1)] if n > 1 else [ce.entry('head')]
    if how in ('struct_symSX', 'struct_symMX'):
        s = cut(how, getattr(ce, how), entries)
        return s, s.cat
    if how in ('struct_SX', 'struct_MX'):
        w = (cs.SX if how == 'struct_SX' else cs.MX).sym('w', n)
        entries = [ce.entry('head', expr=w[0])] + ([ce.entry('rest', expr=w[1:])] if n > 1 else [])
        return cut(how, getattr(ce, how), entries), w
    w, sym = vector(v, how.split()[-1])
    return cut(how, cut('declaration', ce.struct, entries), w), sym


def same_struct(what, s, d, w, base, state):
    """Flat vector and every field."""
    todo = sm.pairs(what, cut('%s: reading' % what, s.__getitem__, Ellipsis), d.get([['...']]))
    todo.append(('%s: flat vector' % what, s.cat, sm.Leaf(np.arange(d.size).reshape(-1, 1))))
    require(list(s.keys()) == d.keys, '%s: keys %s, expected %s', what, list(s.keys()), d.keys)
    if w is None:
        got = [num(n, g) for n, g, _ in todo]
    else:
        f = cut('Function', cs.Function, 'f', [w], [g for _, g, _ in todo])
        got = [num('value', g) for g in f.call([cs.DM(base)])]
    for g, (n, _, l) in zip(got, todo):
        require_equal(n, g, sm.values(l, state))


def check(case, info):
    spec, mode, how = case['spec'], case['mode'], case['as']
    d = sm.Decl(spec)
    info.label(case['cls'], mode)
    info.hit(d.size >= 2)
    s = cut('declaration', sm.build, spec, case['cls'] if case['cls'] in ('symSX', 'symMX') else 'struct')
    if case['cls'] == 'raw':
        s = s.struct
    elif case['cls'] == 'DM':
        s = cut('cast', s, cs.DM.zeros(d.size))
    ch = sw.Choices(case['ch'])
    base = sm.base_values(d)
    for again in ([0, 1] if case['twice'] else [0]):
        if mode == 'vector':
            info.label('as ' + how)
            v, w = vector(base, how)
            if how == 'sparse' and d.size:
                base = base.copy()
                base[0] = 0
            same_struct('cast of %s' % how, cut('cast of %s' % how, s, v), d, w, base, base)
        elif mode == 'data':
            holders = [cs.SX, cs.MX] if how in ('DM', 'array', 'array2', 'list', 'ints') else [cs.SX] if how in ('SX', 'SXexpr') else \
                [cs.MX] if how == 'MX' else []
            for t in holders:
                v, w = vector(base, how)
                new = ce.struct_SX if t is cs.SX else ce.struct_MX_mutable
                what = 'struct_%s of %s' % (t.__name__, how)
                got = cut(what, new, s, data=v)
                require(isinstance(got.cat, t), '%s holds %s', what, type(got.cat).__name__)
                same_struct(what, got, d, t.sym('w', d.size) if w is None else w, base, base)
                rejects('%s with %d elements for a struct of size %d' % (what, d.size + 1, d.size), new, s, data=vector(np.append(base, 1.0), how)[0])
                info.label('data ' + how)
        elif mode == 'scalar':
            val = ch([3.5, 7, np.float64(-2.25), cs.DM(4.5), 0, None, [6.5], np.array(1.5), np.inf])
            v = cut('cast of %r' % (val,), s) if val is None else cut('cast of %r' % (val,), s, val)
            exp = 0 if val is None else float(val[0]) if isinstance(val, list) else float(val)
            same_struct('cast of %r' % (val,), v, d, None, None, np.full(d.size, exp))
            # independent of later casts
            v[s.keys()[0]] = 1.0
            require_equal('a later cast', num('cat', cut('cast', s, 9.0).cat).ravel(), np.full(d.size, 9.0))
        elif mode in ('dict', 'baddict'):
            vals = sw.Values('DM')
            assigned, arg = [], {}
            try:
                for k in d.keys:
                    arg[k] = sw.payload([d.get([['n', k]])], ch, vals, False, assigned, set())
            except sw.Retry:
                return
            if ch([0, 1]):
                arg = dict(reversed(list(arg.items())))
            if mode == 'baddict':
                if ch([0, 1, 2]) == 0 or len(arg) == 1:
                    arg['nosuch'] = 1.0
                elif ch([0, 1]):
                    del arg[ch(list(arg))]
                else:
                    k = ch(list(arg))
                    arg[k + '_'] = arg.pop(k)
                rejects('cast of a dict with keys %s to a struct with keys %s' % (sorted(arg), d.keys), s, arg)
                return
            state = np.full(d.size, np.nan)
            sw.assign(state, assigned, vals)
            same_struct('cast of a dict', cut('cast of a dict', s, arg), d, None, None, state)
        elif mode == 'badvec':
            n = d.size
            opts = [(n + 1, 1), (n, 2), (n + 2, 1), (1, n + 1)]
            if n > 2:
                opts += [(n - 1, 1), (1, n), (n - 1, 1)]
            shape = ch(opts)
            if 0 in shape:
                continue
            for v in (cs.DM.ones(*shape), np.ones(shape), cs.SX.sym('w', *shape), cs.MX.sym('w', *shape)):
                rejects('cast of a %s of shape %s to a struct of size %d' % (type(v).__name__, shape, n), s, v)
            if n > 1:
                for v in (cs.SX.sym('w'), cs.MX.sym('w')):
                    rejects('cast of a symbolic scalar to a struct of size %d' % n, s, v)
        else:
            m = case['cols']
            data = (np.arange(d.size * m) + 500.0).reshape(d.size, m) * (1 if again == 0 else -1)
            if mode == 'badparse':
                for r in (d.size + 1, d.size - 1, 2 * d.size, 1):
                    if r not in (0, d.size):
                        rejects('parseMatrix of %d rows with a struct of size %d' % (r, d.size), s.parseMatrix, np.ones((r, m)))
                return
            arg = cs.DM(data) if how == 'DM' else data.tolist() if how == 'list' else np.asfortranarray(data) if how == 'array2' else data
            got = cut('parseMatrix', s.parseMatrix, arg)
            require(list(got) == d.keys or set(got) == set(d.keys), 'parseMatrix returns keys %s, expected %s', list(got), d.keys)
            for k in d.keys:
                exp = [stack(sm.values(d.get([['n', k]]), data[:, j])) for j in range(m)]
                if exp[0] is None:
                    continue
                require_equal('parseMatrix field %s' % k, num(k, got[k]), np.hstack(exp))


def stack(v):
    if isinstance(v, list):
        v = [x for x in (stack(e) for e in v) if x is not None]
        return np.vstack(v) if v else None
    return v
