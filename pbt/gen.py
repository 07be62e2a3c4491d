"""Strategies shared by the property modules. Everything drawn is JSON-able."""
import math

from hypothesis import strategies as st

import polyref


def val(lo=-10.0, hi=10.0):
    """A number: small integers, short dyadics, or arbitrary doubles in [lo, hi]."""
    return st.one_of(
        st.integers(int(lo), int(hi)).map(float),
        st.integers(int(lo * 64), int(hi * 64)).map(lambda k: k / 64.0),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)
        .map(lambda v: 0.0 if abs(v) < 1e-6 else v))


def matrix(rows, cols, elems=None):
    m = st.lists(st.lists(val() if elems is None else elems, min_size=cols, max_size=cols), min_size=rows, max_size=rows)
    if elems is not None:
        return m
    scale = st.sampled_from([1.0] * 6 + [1e-9, 1e7])
    return st.tuples(m, scale).map(lambda a: a[0] if a[1] == 1.0 else [[x * a[1] for x in r] for r in a[0]])


@st.composite
def nodes(draw, min_n=1, max_n=18, unit=False):
    """Distinct interpolation nodes, any order."""
    kinds = ['gaps', 'gaps', 'gaps', 'gaps', 'family', 'family', 'ints', 'ints', 'cluster', 'cluster']
    kind = draw(st.sampled_from(kinds + ['many'] if max_n > 10 else kinds))
    if kind == 'family':
        fam = draw(st.sampled_from(['chebyshev', 'legendre', 'radau']))
        n = draw(st.integers(max(1, min_n), min(9, max_n)))
        v = polyref.nodes(n, fam)
        if draw(st.booleans()) and v[0] != 0:
            v = [0.0] + v
        v = v[:max_n]
        while len(v) < min_n:
            v.append(v[-1] + 0.25)
    elif kind == 'many':
        n = draw(st.integers(11, max_n))
        v = [0.5 - 0.5 * math.cos(math.pi * k / (n - 1)) for k in range(n)]
    elif kind == 'ints':
        v = draw(st.lists(st.integers(-9, 9), min_size=min_n, max_size=min(max_n, 8), unique=True))
        v = sorted(float(x) for x in v)
    else:
        n = draw(st.integers(min_n, min(10, max_n)))
        big = 200 if n <= 5 else 20 if n <= 8 else 5
        gaps = draw(st.lists(st.integers(1, big), min_size=n - 1, max_size=n - 1))
        v = [0.0]
        for g in gaps:
            v.append(v[-1] + g / 16.0)
        if kind == 'cluster' and n >= 2:
            k = draw(st.integers(1, n - 1))
            v[k:] = [x - (v[k] - v[k - 1]) * (1 - 1e-4) for x in v[k:]] if n <= 6 else v[k:]
        start = draw(val(-3, 3))
        v = [x + start for x in v]
    if unit:
        span = max(v) - min(v)
        lo = min(v)
        if span > 0 and (lo < -2 or max(v) > 3):
            v = [(x - lo) / span for x in v]
    else:
        scale = draw(st.sampled_from([1.0, 1.0, 1.0, 1.0, 0.125, 1e-3, 100.0, 0.3, 1e-6, 1e5]))
        shift = draw(st.sampled_from([0.0, 0.0, 0.0, 1.0, -2.5, 50.0]))
        v = [x * scale + shift for x in v]
    order = draw(st.sampled_from(['asc', 'asc', 'desc', 'perm']))
    if order == 'desc':
        v = v[::-1]
    elif order == 'perm':
        v = draw(st.permutations(v))
    if len(set(v)) != len(v):
        v = sorted(set(v))
    return [float(x) for x in v]


@st.composite
def query(draw, v):
    """A query point relative to the nodes v, as a JSON token resolved by `resolve`."""
    kind = draw(st.sampled_from(['node', 'near', 'in', 'in', 'in', 'out', 'zero', 'ulp']))
    if kind in ('node', 'ulp'):
        return [kind, draw(st.integers(0, 20)), draw(st.sampled_from([-1, 1]))]
    if kind == 'near':
        return [kind, draw(st.integers(0, 20)), draw(st.sampled_from([-1, 1])) * 10.0 ** -draw(st.integers(3, 10))]
    if kind == 'in':
        return [kind, draw(st.floats(0, 1, allow_subnormal=False))]
    if kind == 'out':
        return [kind, draw(st.sampled_from([-1, 1])), draw(st.floats(0.001, 1.5))]
    return ['zero']


def resolve(q, v):
    import numpy as np
    lo, hi = min(v), max(v)
    span = (hi - lo) or 1.0
    if q[0] == 'node':
        return float(v[q[1] % len(v)])
    if q[0] == 'ulp':
        return float(np.nextafter(v[q[1] % len(v)], q[2] * np.inf))
    if q[0] == 'near':
        return float(v[q[1] % len(v)] + q[2] * span)
    if q[0] == 'in':
        return float(lo + q[1] * span)
    if q[0] == 'out':
        return float(lo - q[2] * span if q[1] < 0 else hi + q[2] * span)
    return 0.0


@st.composite
def grid(draw, min_intervals=1, max_intervals=8, ratio=64, shifts=(0.0, 0.0, 1.0, -3.25, 20.0)):
    """Ascending interval bounds, usually not equidistant."""
    n = draw(st.integers(min_intervals, max_intervals))
    kind = draw(st.sampled_from(['uniform', 'free', 'free', 'ints']))
    if kind == 'uniform':
        h = draw(st.sampled_from([1.0, 0.5, 0.1, 2.0, 0.3]))
        t = [k * h for k in range(n + 1)]
    elif kind == 'ints':
        t = [0.0]
        for g in draw(st.lists(st.integers(1, 5), min_size=n, max_size=n)):
            t.append(t[-1] + g)
    else:
        t = [0.0]
        for g in draw(st.lists(st.integers(1, ratio), min_size=n, max_size=n)):
            t.append(t[-1] + g / 16.0)
    scale = draw(st.sampled_from([1.0, 1.0, 1.0, 0.1, 7.3]))
    shift = draw(st.sampled_from(list(shifts)))
    t = [float(x * scale + shift) for x in t]
    return t


@st.composite
def time_query(draw):
    """A point in time relative to a grid."""
    kind = draw(st.sampled_from(['bound', 'bound', 'ulp', 'in', 'in', 'in', 'out']))
    if kind in ('bound', 'ulp'):
        return [kind, draw(st.integers(0, 40)), draw(st.sampled_from([-1, 1]))]
    if kind == 'in':
        return [kind, draw(st.integers(0, 40)), draw(st.floats(0.001, 0.999))]
    return [kind, draw(st.sampled_from([-1, 1])), draw(st.floats(0.001, 0.7))]


def resolve_time(q, t):
    import numpy as np
    n = len(t) - 1
    if q[0] == 'bound':
        return float(t[q[1] % (n + 1)])
    if q[0] == 'ulp':
        return float(np.nextafter(t[q[1] % (n + 1)], q[2] * np.inf))
    if q[0] == 'in':
        i = q[1] % n
        return float(t[i] + q[2] * (t[i + 1] - t[i]))
    if q[1] < 0:
        return float(t[0] - q[2] * (t[1] - t[0]))
    return float(t[-1] + q[2] * (t[-1] - t[-2]))


GRID_AS = ['array', 'array', 'list', 'tuple', 'int', 'intarray']


def as_grid(t, how):
    """The bounds t in one of the containers a caller may use."""
    import numpy as np
    if how in ('int', 'intarray') and all(x == int(x) for x in t):
        t = [int(x) for x in t]
    return np.array(t) if how in ('array', 'intarray') else tuple(t) if how == 'tuple' else list(t)


@st.composite
def time_queries(draw, max_size):
    """Points in time, sometimes very many of them."""
    q = draw(st.lists(time_query(), min_size=1, max_size=max_size))
    return q * draw(st.sampled_from([1] * 9 + [40]))
