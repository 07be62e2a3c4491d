"""Independent reference model of struct declarations, their layout and their index expressions.

A declaration is a JSON dict
    {"items": [entry | {"group": [entry, ...]}, ...], "order": null | [names]}
with entries
    {"name", "rep": [..], "repint": bool, "kind": scalar|col|mat|row|sparse|symm|struct|ss, ...}
An index expression is a list of JSON tokens:
    ["n", name] ["i", k] ["s", a, b, c] ["l", [ints]] ["nl", [names]] ["..."] ["{}"] ["set", [names]] ["nd"] ["f", function]
    and, at leaf level of struct-shaped entries, ["d", name] ["dl", [names]] ["index", tokens] ["indexf", tokens].

`Decl.get` evaluates an index expression to a tree of lists, dicts and `Leaf`s, where a leaf holds the matrix of flat
positions (-1 for a structural zero).
"""
import itertools

import numpy as np
from hypothesis import strategies as st


class Invalid(Exception):
    """The index expression means nothing for this declaration."""


class OutOfRange(Invalid):
    """The index expression names something that does not exist."""


class Leaf(object):
    def __init__(self, idx, entry=None, extra=None, canon=()):
        self.idx = idx
        self.entry = entry          # None if the leaf is a whole sub-struct or the result of a function
        self.extra = extra          # None, or the number of element indices
        self.canon = canon

    @property
    def symm(self):
        return self.entry is not None and self.entry.symm


class Lst(list):
    """A list in the result; a list assigned here is matched by the indices `raw`, `full` is its natural length."""

    def __init__(self, items, raw, full):
        list.__init__(self, items)
        self.raw = list(raw)
        self.full = full


class Entry(object):
    def __init__(self, e):
        self.name = e['name']
        self.dims = list(e.get('rep') or [])
        k = e['kind']
        self.kind = k
        self.sub = Decl(e['struct']) if k == 'struct' else None
        self.symm = k == 'symm'
        self.ss = None
        if k == 'ss':
            self.ss = [d if isinstance(d, int) else Decl(d) for d in e['ss']]
            sizes = [d if isinstance(d, int) else d.size for d in self.ss]
            self.shape = (sizes[0], sizes[1] if len(sizes) > 1 else 1)
            if len(self.ss) == 1:
                self.ss.append(1)
        elif k == 'scalar':
            self.shape = (1, 1)
        elif k == 'symm' and e.get('ss'):
            self.ss = [Decl(d) for d in e['ss']]
            self.shape = tuple(d.size for d in self.ss)
        elif k != 'struct':
            self.shape = tuple(e['shape'])
        if k != 'struct':
            r, c = self.shape
            nz = [(i, j) for j in range(c) for i in range(r)]
            if e.get('nz') is not None:
                keep = set(tuple(p) for p in e['nz'])
                nz = [p for p in nz if p in keep]
            self.pattern = nz
            if self.symm:
                nz = [(i, j) for i, j in nz if i <= j]
            self.nz = nz

    def dense(self):
        if self.sub is not None:
            return self.sub.dense()
        return not self.symm and len(self.nz) == self.shape[0] * self.shape[1]


class Decl(object):
    """With upper=True symmetric entries are taken as their stored triangle."""

    def __init__(self, spec, upper=False):
        self.entries = {}
        order = []
        for it in spec['items']:
            group = it['group'] if 'group' in it else [it]
            es = [Entry(e) for e in group]
            for e in es:
                self.entries[e.name] = e
            order.append(tuple(e.name for e in es) if 'group' in it else es[0].name)
        if spec.get('order') is not None:
            order = [tuple(o) if isinstance(o, list) else o for o in spec['order']]
        self.order = order
        self.keys = [k for o in order for k in (o if isinstance(o, tuple) else (o,))]
        self.leaves = []        # (canonical index, entry, offset)
        self.map = {}           # canonical index -> matrix of flat positions
        self.table = []         # flat position -> (canonical index, number within the leaf, (row, column))
        self.size = 0
        for canon, e in self._slots():
            m = np.full(e.shape, -1, dtype=int)
            for k, (i, j) in enumerate(e.nz):
                m[i, j] = self.size + k
                self.table.append((canon, k, (i, j)))
            if e.symm and not upper:
                for i, j in e.nz:
                    m[j, i] = m[i, j]
            self.leaves.append((canon, e, self.size))
            self.map[canon] = m
            self.size += len(e.nz)

    def dense(self):
        return all(e.dense() for e in self.entries.values())

    def _slots(self):
        for o in self.order:
            if isinstance(o, tuple):
                es = [self.entries[n] for n in o]
                rounds = max([e.dims[0] if e.dims else 1 for e in es])
                for k in range(rounds):
                    for e in es:
                        if k < (e.dims[0] if e.dims else 1):
                            for s in self._entry_slots(e, k if e.dims else None):
                                yield s
            else:
                for s in self._entry_slots(self.entries[o], None):
                    yield s

    @staticmethod
    def _entry_slots(e, first):
        ranges = [range(d) for d in e.dims]
        if first is not None:
            ranges[0] = [first]
        for rep in itertools.product(*ranges):
            if e.sub is None:
                yield (e.name,) + rep, e
            else:
                for c, ee in e.sub._slots():
                    yield (e.name,) + rep + c, ee

    def prefix(self, canon):
        """Flat positions of everything below a canonical index, in flat order."""
        return [p for p, (c, _, _) in enumerate(self.table) if c[:len(canon)] == canon]

    def tops(self):
        """Canonical indices of the entries of this struct with all their repetitions, in flat order."""
        out = []
        for c, _, _ in self.leaves:
            n = 1 + len(self.entries[c[0]].dims)
            if c[:n] not in out:
                out.append(c[:n])
        return out

    # -- index expressions -------------------------------------------------------------------------------------------
    def get(self, tokens, root=None, canon=()):
        """Evaluate an index expression."""
        root = root or self
        if not tokens:
            if not canon:
                raise Invalid('empty index')
            return Leaf(np.array(root.prefix(canon), dtype=int).reshape(-1, 1), canon=canon)
        t, rest = tokens[0], tokens[1:]
        one = lambda name, r: self._get_entry(name, r, root, canon)
        if t[0] == 'n':
            return one(t[1], rest)
        if t[0] == 'nl':
            return Lst([one(n, rest) for n in t[1]], range(len(t[1])), len(t[1]))
        if t[0] == '...':
            return Lst([one(n, rest) for n in self.keys], range(len(self.keys)), len(self.keys))
        if t[0] == '{}':
            return {n: one(n, rest) for n in self.entries}
        if t[0] == 'set':
            return {n: one(n, rest) for n in t[1]}
        if t[0] == 'nd':
            return {n: one(n, [t]) for n in self.entries}
        if t[0] == 'f':
            return apply(t[1], self.get(rest, root, canon))
        raise Invalid('%s in struct context' % (t,))

    def _get_entry(self, name, tokens, root, canon):
        if name not in self.entries:
            raise OutOfRange(name)
        return self._get_dims(self.entries[name], self.entries[name].dims, tokens, root, canon + (name,))

    def _get_dims(self, e, dims, tokens, root, canon):
        if dims:
            if not tokens:
                tokens = [['s', None, None, None]] * len(dims)
            t, rest = tokens[0], tokens[1:]
            if t[0] == 'i':
                return self._get_dims(e, dims[1:], rest, root, canon + (norm(t[1], dims[0]),))
            if t[0] in ('s', 'l'):
                raw = expand(t, dims[0])
                return Lst([self._get_dims(e, dims[1:], rest, root, canon + (norm(k, dims[0]),)) for k in raw], raw, dims[0])
            if t[0] == 'nd':
                return Lst([self._get_dims(e, dims[1:], [t], root, canon + (k,)) for k in range(dims[0])], range(dims[0]), dims[0])
            if t[0] == 'f':
                return apply(t[1], self._get_dims(e, dims, rest, root, canon))
            raise Invalid('%s in list context' % (t,))
        if e.sub is not None:
            if not tokens:
                return Leaf(np.array(root.prefix(canon), dtype=int).reshape(-1, 1), canon=canon)
            return e.sub.get(tokens, root, canon)
        return self._get_leaf(e, root.map[canon], tokens, canon)

    def _get_leaf(self, e, m, tokens, canon):
        if not tokens:
            return Leaf(m, e, None, canon)
        if tokens[0][0] == 'f':
            if tokens[0][1] not in ('T', 'id'):
                raise Invalid('list function at leaf level')
            return apply(tokens[0][1], self._get_leaf(e, m, tokens[1:], canon))
        if tokens[0][0] == 'nd':
            return Leaf(m, e, None, canon)
        if len(tokens) > 2:
            raise Invalid('too many indices')
        if len(tokens) == 1:
            flat = m.ravel(order='F')
            sel = flat[self._element(e, 0, tokens[0], flat.size)]
            return Leaf(sel.reshape(1, -1) if m.shape[0] == 1 else sel.reshape(-1, 1), e, 1, canon)
        a = self._element(e, 0, tokens[0], m.shape[0])
        b = self._element(e, 1, tokens[1], m.shape[1])
        return Leaf(m[np.ix_(a, b)], e, 2, canon)

    @staticmethod
    def _element(e, axis, t, n):
        """Positions along one axis."""
        if t[0] == 'i':
            return [norm(t[1], n)]
        if t[0] in ('s', 'l'):
            if t[0] == 's':                       # slices of elements are CasADi's, which does not clip them
                a, b, c = t[1:]
                if c == -1 and (a, b) != (None, None):
                    raise Invalid('partial reversed slice of elements')
                if (a is not None and not -n <= a < n) or (b is not None and not -n <= b <= n):
                    raise Invalid('slice of elements out of range')
                if c == 2 and min(a or 0, b or 0) < 0:
                    raise Invalid('negative bounds with a step are not understood by CasADi')
            if not expand(t, n):
                raise Invalid('empty selection of elements')     # the shape is up to CasADi
            return [norm(k, n) for k in expand(t, n)]
        if e.ss is None or isinstance(e.ss[axis], int):
            raise Invalid('delegated index without struct shape')
        d = e.ss[axis]
        if t[0] == 'd':
            tree = d.get([['n', t[1]]])
        elif t[0] == 'dl':
            tree = d.get([['nl', t[1]]])
        elif t[0] == 'index':
            tree = d.get(t[1])
            if not isinstance(tree, Leaf) or tree.idx.shape[1] != 1:
                raise Invalid('index[] needs a single column')
        elif t[0] == 'indexf':
            tree = d.get(t[1])
        else:
            raise Invalid('%s at leaf level' % (t,))
        if not d.dense():
            raise Invalid('struct shape with structural zeros')
        out = [int(v) for l in leaves(tree) for v in l.idx.ravel(order='F')]
        if any(v < 0 for v in out) or any(isinstance(x, dict) for x in walk(tree)):
            raise Invalid('unsupported delegated index')
        if not out:
            raise Invalid('empty selection of elements')
        return out


def walk(tree):
    yield tree
    for c in tree.values() if isinstance(tree, dict) else tree if isinstance(tree, list) else []:
        for x in walk(c):
            yield x


def leaves(tree):
    return [x for x in walk(tree) if isinstance(x, Leaf)]


def norm(k, n):
    j = k + n if k < 0 else k
    if j < 0 or j >= n:
        raise OutOfRange(k)
    return j


def expand(t, n):
    if t[0] == 'l':
        return list(t[1])
    return list(range(*slice(t[1], t[2], t[3]).indices(n)))


def apply(f, tree):
    if f == 'id':
        return tree
    if f == 'T':
        if not isinstance(tree, Leaf):
            raise Invalid('T of a list')
        return Leaf(tree.idx.T)
    if not isinstance(tree, list) or not tree:
        raise Invalid('list function of something else')
    if f == 'rev':
        return tree[::-1]
    if f == 'first':
        return tree[0]
    if not all(isinstance(x, Leaf) for x in tree):
        raise Invalid('concatenation of lists')
    axis = {'hcat': 1, 'vcat': 0}[f]
    if len(set(x.idx.shape[1 - axis] for x in tree)) != 1:
        raise Invalid('concatenation of different shapes')
    return Leaf(np.concatenate([x.idx for x in tree], axis=axis))


def values(tree, v, zero=0.0):
    """The tree with the positions replaced by the values v of the flat vector."""
    if isinstance(tree, dict):
        return {k: values(x, v) for k, x in tree.items()}
    if isinstance(tree, list):
        return [values(x, v) for x in tree]
    v = np.append(np.asarray(v, dtype=float), zero)
    return v[tree.idx]


# -- building the real objects -----------------------------------------------------------------------------------------
FUN = {}


def functions():
    import casadi as cs
    if not FUN:
        FUN.update({'id': lambda x: x, 'T': lambda x: x.T, 'rev': lambda x: x[::-1], 'first': lambda x: x[0],
                    'hcat': lambda x: cs.horzcat(*x), 'vcat': lambda x: cs.vertcat(*x)})
    return FUN


def pyindex(tokens):
    """The index expression as Python passes it to __getitem__ (tuple)."""
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
    out = []
    for t in tokens:
        k = t[0]
        if k in ('n', 'd'):
            out.append(t[1])
        elif k == 'i':
            out.append(np.int64(t[1]) if t[2:] else t[1])
        elif k == 'l':
            out.append([np.int64(v) for v in t[1]] if t[2:] else list(t[1]))
        elif k in ('nl', 'dl'):
            out.append(list(t[1]))
        elif k == 's':
            out.append(slice(t[1], t[2], t[3]))
        elif k == '...':
            out.append(Ellipsis)
        elif k == '{}':
            out.append({})
        elif k == 'set':
            out.append(set(t[1]))
        elif k == 'nd':
            out.append(s3.nesteddict)
        elif k == 'f':
            out.append(functions()[t[1]])
        elif k == 'index':
            out.append(s3.index[pyindex(t[1])])
        elif k == 'indexf':
            out.append(s3.indexf[pyindex(t[1])])
        else:
            raise Exception(k)
    return tuple(out) if len(out) != 1 else out[0]


def sparsity(e):
    import casadi as cs
    r, c = e['shape']
    return cs.Sparsity.triplet(r, c, [p[0] for p in e['nz']], [p[1] for p in e['nz']])


def build_entry(e, **more):
    """entry(...) of a JSON entry."""
    import casadi_extras as ce
    return ce.entry(e['name'], **entry_kw(e, **more))


def entry_kw(e, **more):
    kw = dict(more)
    if e.get('rep') is not None:
        rep = [np.int64(r) for r in e['rep']] if e.get('npint') else list(e['rep'])
        kw['repeat'] = rep[0] if e.get('repint') and len(rep) == 1 else rep
    k = e['kind']
    if k == 'struct':
        kw['struct'] = build(e['struct'], e.get('as', 'struct'))
    elif k == 'ss' or e.get('ss'):
        ss = [d if isinstance(d, int) else build(d, 'struct') for d in e['ss']]
        kw['shapestruct'] = ss[0] if len(ss) == 1 and not isinstance(ss[0], int) and e.get('plain', True) else tuple(ss)
        if e.get('nz') is not None:
            m = Entry(e)
            kw['shape'] = sparsity(dict(e, shape=m.shape))
    elif k != 'scalar':
        if e.get('nz') is not None:
            kw['shape'] = sparsity(e)
        else:
            r, c = e['shape']
            how = e.get('how', 'tuple')
            if how == 'np':
                r, c = np.int64(r), np.int32(c)
            kw['shape'] = r if c == 1 and how in ('int', 'np') else (r,) if c == 1 and how == 'tuple1' else [r, c] if how == 'list' else (r, c)
    if k == 'symm':
        kw['type'] = 'symm'
    return kw


def items(spec, make=build_entry):
    return [tuple(make(e) for e in it['group']) if 'group' in it else make(it) for it in spec['items']]


def build(spec, cls='struct'):
    """Declaration of the given class."""
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
    c = {'struct': s3.struct, 'symSX': s3.struct_symSX, 'symMX': s3.struct_symMX}[cls]
    it = items(spec)
    if spec.get('order') is not None:
        return c(it, order=[tuple(o) if isinstance(o, list) else o for o in spec['order']])
    return c(it)


KINDS = ['DM', 'SX', 'MX', 'symSX', 'symMX', 'veccat', 'fillSX', 'fillMX']


def spmatrix(m, cls, base):
    """Matrix with the sparsity of the index matrix m (-1: structural zero) and the entries of the column base."""
    import casadi as cs
    r, c = m.shape
    nz = [(i, j) for j in range(c) for i in range(r) if m[i, j] >= 0]
    sp = cs.Sparsity.triplet(r, c, [p[0] for p in nz], [p[1] for p in nz])
    if not nz:
        return cls(sp)
    return cls(sp, cs.reshape(base[[int(m[i, j]) for i, j in nz]], len(nz), 1))


def stored(spec, kind, decl=None):
    """(struct object of a storage kind, symbol its flat vector equals or None, is numeric)"""
    import casadi as cs
    from casadi_extras import structure3 as s3
    d = Decl(spec)
    if kind in ('symSX', 'symMX'):
        s = build(spec, kind)
        return s, s.cat
    s = build(spec) if decl is None else decl
    if kind == 'DM':
        return s(cs.DM(base_values(d))), None
    cls = cs.SX if kind in ('SX', 'fillSX') else cs.MX
    w = cls.sym('w', d.size)
    if kind in ('SX', 'MX'):
        return s((w + 1) - 1 if d.size % 2 else cls(w)), w
    v = {'veccat': s3.struct_MX, 'fillSX': s3.struct_SX, 'fillMX': s3.struct_MX_mutable}[kind](s)
    up = Decl(spec, upper=True)
    fill(v, d, up, kind, cls, w)
    return v, w


def fill(v, d, up, kind, cls, w, order=None):
    """Assign every field of an empty struct so that its flat vector becomes w."""
    tops = d.tops()
    for k in order or range(len(tops)):
        c = tops[k]
        m = up.map[c] if c in up.map else np.array(d.prefix(c), dtype=int).reshape(-1, 1)
        if kind != 'veccat' and c in d.map:
            m = d.map[c]
        v[c] = spmatrix(m, cls, w)


def base_values(d):
    return np.arange(d.size) * 1.0 + 101


# -- strategies --------------------------------------------------------------------------------------------------------
NAMES = ['a', 'b', 'c', 'x', 'y2', 'long_name', 'T', 'size', '0', 'x y', 'b10', 'b9']


def pattern(draw, r, c, symm=False):
    cells = [[i, j] for i in range(r) for j in range(c) if not symm or i <= j]
    keep = [p for p in cells if draw(st.booleans())]
    if not keep:
        keep = [cells[draw(st.integers(0, len(cells) - 1))]]
    if symm:
        keep = keep + [[j, i] for i, j in keep if i != j]
    return sorted(keep)


@st.composite
def entry(draw, name, depth, kinds, maxrep=3):
    k = draw(st.sampled_from(kinds if depth > 0 else [x for x in kinds if x != 'struct']))
    e = {'name': name, 'kind': k}
    nd = draw(st.sampled_from([0] * 6 + [1] * 6 + [2] * 4 + [3, 3, 4] if k in ('scalar', 'col') else
                              [0] * 6 + [1] * 5 + [2] * 2 + [3]))
    if nd:
        e['rep'] = draw(st.lists(st.integers(1, maxrep if nd < 3 else 2), min_size=nd, max_size=nd))
        e['repint'] = draw(st.booleans())
        if depth > 0 and draw(st.integers(0, 15)) == 0:
            e['rep'] = draw(st.sampled_from([[0], [0], [2, 0], [0, 2]]))
        elif k == 'scalar' and draw(st.integers(0, 11)) == 0:
            e['rep'] = [draw(st.integers(10, 13))]
        e['npint'] = draw(st.integers(0, 9)) == 0
    elif draw(st.integers(0, 9)) == 0:
        e['rep'] = []
    if k == 'col':
        e['shape'] = [draw(st.sampled_from([1, 2, 2, 2, 2, 3, 3, 4, 4, 11])), 1]
        e['how'] = draw(st.sampled_from(['int', 'int', 'tuple', 'tuple1', 'list', 'np']))
        if draw(st.integers(0, 19)) == 0:
            e['shape'] = [0, 1]
    elif k == 'row':
        e['shape'] = [1, draw(st.integers(2, 3))]
    elif k == 'mat':
        e['shape'] = draw(st.sampled_from([[2, 2], [2, 3], [3, 2], [3, 3], [2, 2], [2, 3], [3, 2], [4, 2], [2, 5]]))
        e['how'] = draw(st.sampled_from(['tuple', 'list', 'np']))
        if draw(st.integers(0, 19)) == 0:
            e['shape'] = draw(st.sampled_from([[0, 0], [0, 3], [2, 0]]))
    elif k == 'sparse':
        e['shape'] = draw(st.sampled_from([[3, 1], [1, 3], [2, 2], [3, 2], [2, 3], [3, 3]]))
        e['nz'] = pattern(draw, *e['shape'])
    elif k == 'symm':
        n = draw(st.sampled_from([1, 2, 2, 2, 3, 3, 3, 4, 4, 5]))
        e['shape'] = [n, n]
        if draw(st.integers(0, 3)) == 0:
            sub = draw(decl(depth=0, kinds=['scalar', 'col', 'col'], max_entries=3, maxrep=2, max_size=5))
            n = Decl(sub).size
            e['ss'] = [sub, sub]
            e['shape'] = [n, n]
        if draw(st.booleans()):
            e['nz'] = pattern(draw, n, n, True)
    elif k == 'ss':
        sub = decl(depth=0, kinds=['scalar', 'col', 'col', 'mat'], max_entries=2, maxrep=2, max_size=16)
        e['ss'] = draw(st.one_of(st.tuples(sub), st.tuples(sub, sub), st.tuples(sub, st.integers(1, 2)),
                                 st.tuples(st.integers(1, 2), sub)))
        e['ss'] = list(e['ss'])
        e['plain'] = draw(st.booleans())
        r, c = Entry(e).shape
        if r * c > 1 and draw(st.integers(0, 4)) == 0:
            e['nz'] = pattern(draw, r, c)
        if e.get('rep') and max(e['rep']) > 2:
            e['rep'] = [min(r, 2) for r in e['rep']]
    elif k == 'struct':
        e['struct'] = draw(decl(depth=depth - 1, kinds=kinds, max_entries=3, maxrep=2 if nd else maxrep))
        e['as'] = draw(st.sampled_from(['struct', 'struct', 'symSX', 'symMX']))
    return e


ALL = ['scalar', 'col', 'col', 'mat', 'row', 'sparse', 'symm', 'struct', 'struct', 'ss']
NO_SYMM = [k for k in ALL if k != 'symm']
DENSE = ['scalar', 'col', 'col', 'mat', 'row', 'struct', 'struct']


@st.composite
def decl(draw, depth=2, kinds=tuple(ALL), max_entries=4, maxrep=3, min_entries=1, max_size=150):
    n = draw(st.integers(min_entries, max_entries))
    if max_entries >= 4 and depth >= 1 and draw(st.integers(0, 19)) == 0:
        n = draw(st.integers(5, len(NAMES)))
        kinds = [k for k in kinds if k not in ('struct', 'ss')]
    pool = draw(st.sampled_from([NAMES, NAMES, NAMES[:4] if n < 5 else NAMES]))     # few names: the same ones at several levels
    names = draw(st.permutations(pool))[:n]
    es = [draw(entry(nm, depth, list(kinds), maxrep)) for nm in names]
    if all(0 in (e.get('rep') or []) or 0 in e.get('shape', []) for e in es):
        es[0] = {'name': es[0]['name'], 'kind': 'scalar'}       # at least one slot
    spec = {'items': es, 'order': None}
    shape = draw(st.sampled_from(['plain', 'plain', 'order', 'group', 'group'])) if n > 1 else 'plain'
    if shape == 'order':
        spec['order'] = draw(st.permutations(names))
        if draw(st.booleans()):
            a = draw(st.integers(0, n - 2))
            b = draw(st.integers(a + 2, n))
            spec['order'] = spec['order'][:a] + [spec['order'][a:b]] + spec['order'][b:]
            if n - b > 1 and draw(st.booleans()):
                spec['order'] = spec['order'][:a + 1] + [spec['order'][a + 1:]]
    elif shape == 'group':
        a = draw(st.integers(0, n - 2))
        b = draw(st.integers(a + 1, n - 1))
        grp = es[a:b + 1]
        if draw(st.booleans()) and all(e['kind'] != 'struct' for e in grp):
            k = draw(st.integers(1, maxrep))
            for e in grp:
                e['rep'] = [k] + (e.get('rep') or [])[1:]
        rest = es[b + 1:]
        if len(rest) > 1 and draw(st.booleans()):
            rest = [{'group': rest}]
        spec['items'] = es[:a] + [{'group': grp}] + rest
    while Decl(spec).size > max_size:           # shrink repetitions until manageable
        es = [e for it in spec['items'] for e in (it['group'] if 'group' in it else [it])]
        many = [e for e in es if any(r > 1 for r in e.get('rep') or [])]
        if many:
            many[0]['rep'] = [min(r, 1) for r in many[0]['rep']]
            continue
        big = max(es, key=lambda e: Decl({'items': [e], 'order': None}).size)
        if big['kind'] == 'scalar':
            break
        for k in [k for k in big if k not in ('name', 'rep', 'repint')]:
            del big[k]
        big['kind'] = 'scalar'
    return spec


def slices(n):
    a = st.one_of(st.none(), st.integers(-n, n))
    return st.tuples(a, a, st.sampled_from([None, None, None, 1, 2, -1])).map(lambda t: ['s'] + list(t))


def ints(n, unique=False):
    return st.lists(st.integers(-n, n - 1), min_size=1, max_size=min(3, n), unique_by=(lambda v: v % n) if unique else None)


@st.composite
def axis(draw, n, ss, unique):
    t = draw(_axis(n, ss, unique))
    return t + [1] if t[0] in ('i', 'l') and draw(st.integers(0, 7)) == 0 else t


@st.composite
def _axis(draw, n, ss, unique):
    c = ['i', 's', 'l']
    if isinstance(ss, Decl):
        c += ['d', 'd', 'dl', 'index', 'indexf']
    k = draw(st.sampled_from(c))
    if k == 'i':
        return ['i', draw(st.integers(-n, n - 1))]
    if k == 's':
        return draw(st.one_of(slices(n).filter(lambda t: t[3] != -1), st.just(['s', None, None, -1])))
    if k == 'l':
        return ['l', draw(ints(n, unique))]
    if k == 'd':
        return ['d', draw(st.sampled_from(ss.keys))]
    if k == 'dl':
        return ['dl', draw(st.lists(st.sampled_from(ss.keys), min_size=1, max_size=2, unique=True))]
    t = [['n', draw(st.sampled_from(ss.keys))]]
    e = ss.entries[t[0][1]]
    for d in e.dims:
        if d == 0:
            break
        if k == 'index' or draw(st.booleans()):
            t.append(['i', draw(st.integers(-d, d - 1))])
    return [k, t]


@st.composite
def index(draw, d, functions=True, sets=True, elements=True, unique=False, stop=True):
    """An index expression which is valid for the Decl d."""
    t = draw(_struct_index(d, functions, sets, elements, unique))
    while t:
        try:
            d.get(t)
            return t
        except Invalid:
            t = t[:-1]
    return [['n', d.keys[0]]]


@st.composite
def _struct_index(draw, d, functions, sets, elements, unique):
    c = ['n'] * 8 + ['nl', '...', 'nd'] + (['{}', 'set'] if sets else []) + (['f'] if functions else [])
    k = draw(st.sampled_from(c))
    names = draw(st.lists(st.sampled_from(d.keys), min_size=1, max_size=len(d.keys), unique=True))
    rest = lambda n: draw(_entry_index(d.entries[n], d.entries[n].dims, functions, sets, elements, unique))
    if k == 'n':
        return [['n', names[0]]] + rest(names[0])
    if k == 'nl':
        return [['nl', names]] + rest(names[0])
    if k == '...':
        return [['...']] + rest(d.keys[0])
    if k == '{}':
        return [['{}']] + rest(d.keys[0])
    if k == 'set':
        return [['set', names]] + rest(names[0])
    if k == 'nd':
        return [['nd']]
    f = draw(st.sampled_from(['rev', 'first', 'hcat', 'vcat', 'id']))
    return [['f', f], draw(st.sampled_from([['...'], ['nl', names]]))] + rest(names[0])


@st.composite
def _entry_index(draw, e, dims, functions, sets, elements, unique):
    if draw(st.integers(0, 3)) == 0:
        return []
    if dims:
        if dims[0] == 0:
            return draw(st.sampled_from([[], [['s', None, None, None]]]))
        k = draw(st.sampled_from(['i', 'i', 'i', 's', 's', 'l', 'l'] + (['f'] if functions else []) + ['nd']))
        rest = lambda dd: draw(_entry_index(e, dd, functions, sets, elements, unique))
        if k == 'i':
            np_ = [1] if draw(st.integers(0, 7)) == 0 else []         # a numpy integer
            return [['i', draw(st.integers(-dims[0], dims[0] - 1))] + np_] + rest(dims[1:])
        if k == 's':
            return [draw(slices(dims[0]))] + rest(dims[1:])
        if k == 'l':
            np_ = [1] if draw(st.integers(0, 7)) == 0 else []
            return [['l', draw(ints(dims[0], unique))] + np_] + rest(dims[1:])
        if k == 'nd':
            return [['nd']]
        return [['f', draw(st.sampled_from(['rev', 'first', 'hcat', 'hcat', 'vcat', 'vcat', 'id']))]] + rest(dims)
    if e.sub is not None:
        return draw(_struct_index(e.sub, functions, sets, elements, unique))
    if not elements:
        return []
    r, c = e.shape
    if r * c == 0:
        return []
    ss = e.ss or [None, None]
    k = draw(st.sampled_from(['1', '1', '2', '2', '2', '2', 'T' if functions else '2']))
    if k == 'T':
        return [['f', 'T']]
    if k == '1':
        return [draw(axis(r * c, ss[0], unique))]
    return [draw(axis(r, ss[0], unique)), draw(axis(c, ss[1], unique))]


@st.composite
def bad_index(draw, d):
    """An index expression with an unknown name or an integer out of range."""
    t = draw(index(d, functions=False, sets=True))
    pos = [k for k, x in enumerate(t) if x[0] in ('n', 'nl', 'set', 'i', 'l')]
    if not pos:
        return [['n', 'nosuch']]
    k = draw(st.sampled_from(pos))
    x = t[k]
    if x[0] == 'n':
        new = ['n', draw(st.sampled_from(['nosuch', 'A', x[1] + '_', '']))]
    elif x[0] in ('nl', 'set'):
        new = [x[0], x[1] + ['nosuch']]
    else:
        big = draw(st.sampled_from([0, 1, 5])) + 40
        for n in range(1, 41):                   # smallest value that is out of range
            try:
                d.get(t[:k] + [['i', n]] + t[k + 1:])
            except OutOfRange:
                big = n + draw(st.sampled_from([0, 0, 0, 1, 30]))
                break
            except Invalid:
                pass
        v = draw(st.sampled_from([big, -big - 1]))
        new = ['i', v] if x[0] == 'i' else ['l', x[1] + [v]]
    # an empty slice behind the bad index would leave nothing to reject
    t = t[:k] + [new] + [['s', None, None, None] if x[0] == 's' else x for x in t[k + 1:]]
    try:
        d.get(t)
    except OutOfRange:
        return t
    except Invalid:
        pass
    return [['n', 'nosuch']]


# -- comparing ---------------------------------------------------------------------------------------------------------
def pairs(what, got, tree):
    """(path, real leaf, model leaf) after checking that the nesting is the same."""
    from base import require
    if isinstance(tree, dict):
        require(isinstance(got, dict), '%s: got %s instead of a dict', what, type(got).__name__)
        require(set(got) == set(tree), '%s: keys %s, expected %s', what, sorted(got), sorted(tree))
        return [p for k in tree for p in pairs('%s{%s}' % (what, k), got[k], tree[k])]
    if isinstance(tree, list):
        require(isinstance(got, list), '%s: got %s instead of a list', what, type(got).__name__)
        require(len(got) == len(tree), '%s: %d elements, expected %d', what, len(got), len(tree))
        return [p for k in range(len(tree)) for p in pairs('%s(%d)' % (what, k), got[k], tree[k])]
    require(not isinstance(got, (list, dict, tuple)), '%s: got %s instead of a matrix', what, type(got).__name__)
    require(tuple(got.shape) == tree.idx.shape, '%s: shape %s, expected %s', what, tuple(got.shape), tree.idx.shape)
    return [(what, got, tree)]


def show(tokens):
    f = {'n': lambda t: repr(t[1]), 'i': lambda t: str(t[1]), 'l': lambda t: str(t[1]), 'nl': lambda t: str(t[1]),
         's': lambda t: ':'.join('' if v is None else str(v) for v in t[1:]), '...': lambda t: '...', '{}': lambda t: '{}',
         'set': lambda t: '{' + ','.join(repr(n) for n in t[1]) + '}', 'nd': lambda t: 'nesteddict', 'f': lambda t: '<%s>' % t[1],
         'd': lambda t: repr(t[1]), 'dl': lambda t: str(t[1]), 'index': lambda t: 'index' + show(t[1]),
         'indexf': lambda t: 'indexf' + show(t[1])}
    return '[' + ','.join(f[t[0]](t) for t in tokens) + ']'


def features(spec, out=None):
    """Labels describing a declaration."""
    out = set() if out is None else out
    if spec.get('order') is not None:
        out.add('order')
    for it in spec['items']:
        if 'group' in it:
            out.add('group')
        for e in it['group'] if 'group' in it else [it]:
            out.add(e['kind'])
            out.add('%d-d repeat' % len(e.get('rep') or []))
            if e['kind'] == 'struct':
                out.add('nested')
                features(e['struct'], out)
    return out
