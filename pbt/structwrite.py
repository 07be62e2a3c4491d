"""Payloads for struct assignments: the Python object to assign and what it means for the flat vector."""
import numpy as np

import structmodel as sm


class Choices(object):
    """Decisions taken from a JSON list of small integers, repeated cyclically."""

    def __init__(self, seq):
        self.seq = list(seq) or [0]
        self.k = 0

    def __call__(self, options):
        v = self.seq[self.k % len(self.seq)]
        self.k += 1
        return options[v % len(options)]


class Values(object):
    """Distinct values to assign: numbers, or symbols standing for them."""

    def __init__(self, kind, n=600):
        import casadi as cs
        self.cls = cs.DM if kind == 'DM' else cs.SX if 'SX' in kind else cs.MX
        self.sym = None if kind == 'DM' else self.cls.sym('q', n)
        self.n = n
        self.k = 0
        self.num = 1000.0 + np.arange(n)
        self.sparse = True              # payloads may have another sparsity than the field

    def new(self, count):
        """Indices of fresh values."""
        r = [(self.k + i) % self.n for i in range(count)]
        self.k += count
        return r

    def matrix(self, pos):
        """The matrix whose elements are the values at the index matrix pos (-1: structural zero)."""
        import casadi as cs
        src = cs.DM(self.num) if self.sym is None else self.sym
        return sm.spmatrix(pos, self.cls, src)


def signature(t):
    if isinstance(t, dict):
        return tuple(sorted((k, signature(v)) for k, v in t.items()))
    if isinstance(t, list):
        return ('list', tuple(t.raw), t.full) + tuple(signature(v) for v in t)
    rel = tuple((t.idx - t.idx[t.idx >= 0].min() if (t.idx >= 0).any() else t.idx).ravel()) if t.symm else ()
    return (t.idx.shape, t.symm, t.extra, tuple((t.idx >= 0).ravel()), rel)


def same(nodes):
    return len(set(signature(n) for n in nodes)) == 1


def payload(nodes, ch, vals, exact, out, labels):
    """An object assignable to each of the equally shaped target trees; appends (leaf, value) to out.

    exact: only matrices of exactly the stored sparsity (expression-composed MX structs)."""
    import casadi_extras as ce
    from casadi_extras import structure3 as s3
    n0 = nodes[0]
    if isinstance(n0, dict):
        mode = ch(['D', 'D', 'B'])
        kids = [c for n in nodes for c in n.values()]
        if mode == 'B' and (same(kids) or not exact):
            p = common(kids, ch, vals, exact, out, labels)
            if not isinstance(p, dict):
                labels.add('dict broadcast')
                return p
            # a dict for all entries would be matched by key
            del out[:]
            raise Retry
        keys = list(n0)
        if len(keys) > 1 and ch([0, 0, 1]):
            keys.remove(ch(keys))
            labels.add('dict subset')
        labels.add('dict')
        return {k: payload([n[k] for n in nodes], ch, vals, exact, out, labels) for k in keys}
    if isinstance(n0, list):
        mode = ch(['L', 'L', 'R', 'B'])
        kids = [c for n in nodes for c in n]
        if mode in 'RB' and kids and (same(kids) or not exact):
            p = common(kids, ch, vals, exact, out, labels)
            if mode == 'R' or isinstance(p, (list, tuple, s3.Repeater)):
                labels.add('repeated')
                return s3.repeated(p)
            labels.add('broadcast')
            return p
        arr = [None] * n0.full
        for k, r in enumerate(n0.raw):
            arr[r] = payload([n[k] for n in nodes], ch, vals, exact, out, labels)
        filler = vals.matrix(np.array([vals.new(1)]))
        arr = [filler if a is None else a for a in arr]
        if n0.raw and min(n0.raw) >= 0 and ch([0, 1]):
            arr = arr[:max(n0.raw) + 1]
        labels.add('list')
        return tuple(arr) if ch([0, 0, 1]) else arr
    return leaf_value(nodes, ch, vals, exact, out, labels)


class Retry(Exception):
    pass


def common(kids, ch, vals, exact, out, labels):
    if same(kids):
        return payload(kids, ch, vals, exact, out, labels)
    v = vals.new(1)
    for k in kids:
        for l in sm.leaves(k):
            out.append((l, v[0]))
    labels.add('scalar')
    return number(vals, v[0], ch)


def number(vals, k, ch):
    if vals.sym is None:
        return ch([float(vals.num[k]), vals.matrix(np.array([[k]])), int(vals.num[k])])
    return vals.matrix(np.array([[k]]))


def leaf_value(nodes, ch, vals, exact, out, labels):
    """A value for leaves of one shape."""
    import casadi as cs
    l = nodes[0]
    shape = l.idx.shape
    stored = sorted(set(int(v) for v in l.idx.ravel() if v >= 0))
    if exact:
        pos = np.full(shape, -1, dtype=int)
        new = vals.new(len(stored))
        for i in range(shape[0]):
            for j in range(shape[1]):
                if l.idx[i, j] >= 0 and (not l.symm or i <= j):
                    pos[i, j] = new[stored.index(int(l.idx[i, j]))]
        out += [(n, full(n, pos)) for n in nodes]
        labels.add('matrix')
        return vals.matrix(pos)
    forms = ['S', 'M', 'M', 'M']
    if l.symm and l.extra == 1:
        forms = ['S']
    elif not l.symm:
        forms += (['P'] if vals.sparse else []) + (['A', 'N'] if vals.sym is None and l.entry is not None else [])
        if min(shape) == 1 and max(shape) > 1:
            forms += ['T']
    if not l.idx.size:
        forms = ['S', 'M']              # other containers cannot express the shape
    f = ch(forms)
    labels.add({'S': 'scalar', 'M': 'matrix', 'T': 'transposed vector', 'P': 'sparse matrix', 'A': 'array', 'N': 'numbers'}[f])
    if f == 'S':
        k = vals.new(1)[0]
        out += [(n, k) for n in nodes]
        return number(vals, k, ch)
    if l.symm:
        new = dict(zip(stored, vals.new(len(stored))))
        pos = np.array([[new.get(int(v), -1) for v in row] for row in l.idx], dtype=int).reshape(shape)
        out += [(n, pos) for n in nodes]
        return vals.matrix(pos)
    pos = np.array(vals.new(l.idx.size), dtype=int).reshape(shape)
    if not vals.sparse:
        pos = np.where(l.idx >= 0, pos, -1)
    if f == 'P':
        pos = pos.copy()
        pos[tuple(ch(list(range(k))) for k in shape)] = -1
    out += [(n, pos) for n in nodes]
    if f == 'A':
        a = np.where(pos >= 0, vals.num[pos], 0)
        return a[:, 0] if shape[1] == 1 and ch([0, 1]) else a
    if f == 'N':
        a = np.where(pos >= 0, vals.num[pos], 0)
        return [float(v) for v in a[:, 0]] if shape[1] == 1 else [[float(v) for v in r] for r in a]
    m = vals.matrix(pos)
    return m.T if f == 'T' else m


def full(n, pos):
    """Values of the stored triangle for the full index matrix."""
    if n.symm:
        pos = np.where(pos >= 0, pos, pos.T)
    return pos


def assign(state, assigned, vals):
    """Update the model's flat vector."""
    for l, v in assigned:
        pos = np.full(l.idx.shape, v) if np.ndim(v) == 0 else v
        for (i, j), k in np.ndenumerate(l.idx):
            if k >= 0:
                state[k] = vals.num[pos[i, j]] if pos[i, j] >= 0 else 0.0


def wrong_shape(l, ch, vals):
    """A matrix which does not fit the leaf."""
    import casadi as cs
    r, c = l.idx.shape
    if not r * c:
        return vals.matrix(np.array(vals.new(6)).reshape(3, 2)), (3, 2)
    shapes = [(r + 1, c), (r, c + 1), (r + 1, c + 1), (r * c + 1, 1), (1, r * c + 1)]
    if r * c > 1:
        shapes += [(r * c + 2, 1)]
        if min(r, c) > 1:
            shapes += [(r * c, 1), (1, r * c)]
            if r != c:
                shapes += [(c, r)]
        if r > 2:
            shapes += [(r - 1, c)]
        if c > 2:
            shapes += [(r, c - 1)]
    if not r * c > 1:
        shapes += [(2, 2)]
    if not vals.sparse:
        shapes = [s for s in shapes if s[0] * s[1] > r * c]
    a, b = ch(shapes)
    return vals.matrix(np.array(vals.new(a * b)).reshape(a, b)), (a, b)


def wrong_sparsity(l, ch, vals):
    """A matrix of the leaf's shape in which one element is a structural zero and should not be, or the reverse."""
    pos = np.array(vals.new(l.idx.size)).reshape(l.idx.shape)
    pos = np.where(l.idx >= 0, pos, -1)
    i, j = ch(list(range(l.idx.shape[0]))), ch(list(range(l.idx.shape[1])))
    pos[i, j] = vals.new(1)[0] if pos[i, j] < 0 else -1
    return vals.matrix(pos)
