import numpy as np
from hypothesis import strategies as st

import gen
import ppref
import polyref
from base import cut, require, require_equal, require_close, num
from polyref import EPS
from casadi_extras.collocation import PiecewisePoly, PolynomialBasis
from props.c14 import bounds

RULE = ('case = piecewise polynomial (bounds, basis, per-interval coefficients incl. zero, constant and lower-degree rows), '
        'query times, sampling step; derivative (repeated up to 3 times), interval polynomials and sampling compared '
        'with exact arithmetic; non-trivial = at least 2 basis nodes and 2 intervals')
BUDGET = {'quick': 3000, 'thorough': 40000}


def strategy(tier):
    @st.composite
    def row(draw, v):
        kind = draw(st.sampled_from(['free', 'free', 'zero', 'const', 'low']))
        if kind == 'zero':
            return [0.0] * len(v)
        if kind == 'const':
            return [draw(gen.val())] * len(v)
        if kind == 'low':
            a, b = draw(st.integers(-4, 4)), draw(st.integers(-4, 4))
            return [a + b * x for x in v]
        return draw(st.lists(gen.val(), min_size=len(v), max_size=len(v)))

    @st.composite
    def case(draw):
        t = draw(gen.grid(max_intervals=draw(st.sampled_from([3, 5, 5, 14]))))
        v = draw(gen.nodes(unit=True, max_n=7))
        m = draw(st.integers(1, 3))
        return {'t': t, 'nodes': v, 'coef': [[draw(row(v)) for _ in range(m)] for _ in range(len(t) - 1)],
                'q': draw(st.lists(gen.time_query(), min_size=1, max_size=5)),
                'deriv': draw(st.integers(1, 3)),
                'step': draw(st.one_of(st.sampled_from([1.0, 0.5, 0.1, 0.25, 1.0 / 3, 2.0]), st.floats(0.02, 3.0))),
                'step_rel': draw(st.booleans()),
                't_as': draw(st.sampled_from(gen.GRID_AS)),
                'c_as': draw(st.sampled_from(['float', 'int']))}
    return case()


def corpus(tier):
    for step in (1.0, 0.5, 0.1, 0.3, 1.0 / 49, 2.0, 0.7):
        for t in ([0.0, 1.0], [0.0, 1.0, 3.0], [0.0, 0.7, 0.75, 4.0]):
            n = len(t) - 1
            yield {'t': t, 'nodes': [0.0, 0.5, 1.0], 'coef': [[[1.0, 2.0, 5.0], [0.0, 0.0, 0.0], [3.0, 3.0, 3.0]]] * n,
                   'q': [['in', k, 0.4] for k in range(n)], 'deriv': 2, 'step': step, 'step_rel': False, 't_as': 'list',
                   'c_as': 'float'}


def check(case, info):
    t = bounds(case)
    T = case['t']
    N = len(T) - 1
    raw = [np.array(c, dtype=float) for c in case['coef']]
    if case['c_as'] == 'int' and all(np.all(c == np.round(c)) for c in raw):
        coef = [c.astype(int) for c in raw]
    else:
        coef = [c.copy() for c in raw]
    keep = [c.copy() for c in coef]
    n, m = len(case['nodes']), len(raw[0])
    ref = ppref.Pieces(T, case['coef'], case['nodes'])
    basis = cut('PolynomialBasis', PolynomialBasis, np.array(case['nodes']))
    f = cut('PiecewisePoly', PiecewisePoly, t, coef, basis)
    xs = [gen.resolve_time(q, T) for q in case['q']]
    info.hit(n >= 2 and N >= 2)

    # derivatives
    d = f
    for order in range(1, case['deriv'] + 1):
        d = cut('derivative', d.derivative)
        require_equal('bounds of the derivative', num('intervals', d.intervals), np.array(T))
        for side in ('right', 'left'):
            Y = num('values', cut('evaluation of the derivative', d, np.array(xs), continuity=side))
            require(Y.shape == (m, len(xs)), 'derivative values shape %s', Y.shape)
            for k, x in enumerate(xs):
                ex, tol = ref.value(x, ref.piece(x, side), order)
                if tol is not None:
                    info.label('derivative %d' % order)
                    require_close('derivative %d at t=%r' % (order, x), Y[:, k], ex, tol)

    # interval polynomials
    for i in range(N):
        p = cut('poly(%d)' % i, f.poly, i)
        require(len(p) == m, 'poly(%d) returned %d polynomials for %d rows', i, len(p), m)
        h = T[i + 1] - T[i]
        for s in [0.0, h, 0.37 * h] + [x - T[i] for x in xs if T[i] <= x <= T[i + 1]] + [-0.2 * h]:
            tau = polyref.fr(s) / (polyref.fr(T[i + 1]) - polyref.fr(T[i]))
            rows = ref.ref.row(tau)
            W = np.array([ref.ref.power_weight(j, float(tau)) for j in range(n)])
            for r in range(m):
                ex = float(sum((polyref.fr(a) * b for a, b in zip(raw[i][r], rows)), polyref.F(0)))
                tol = 200 * n * EPS * float(np.sum(np.abs(raw[i][r]) * W))
                if tol < 1e-4:
                    info.label('poly')
                    got = num('poly value', cut('poly(%d)[%d]' % (i, r), p[r], s))
                    require_close('poly(%d)[%d](%r)' % (i, r, s), float(got), ex, tol + 1e-300)

    # sampling
    step = case['step'] * (max(np.diff(T)) if case['step_rel'] else 1.0)
    step = max(step, (T[-1] - T[0]) / 400.0)
    x, y = cut('discretize', f.discretize, step)
    x, y = num('sample points', x), num('sample values', y)
    require(x.ndim == 1 and y.shape == (m, x.size), 'discretize returned shapes %s and %s', x.shape, y.shape)
    require(x.size >= 2, 'discretize returned %d points', x.size)
    big = max(abs(v) for v in T)
    require(bool(np.all(np.diff(x) >= -4 * EPS * big)), 'sample points are not ascending')
    require(bool(np.all(np.diff(x) <= step * (1 + 1e-9) + 16 * EPS * big)), 'gap %r larger than step %r',
            float(np.max(np.diff(x))), step)
    owner = [[] for _ in x]         # admissible pieces of each sample
    near = 64 * EPS * big + 1e-12 * min(np.diff(T))
    for b in range(N + 1):
        run = [k for k in range(x.size) if abs(x[k] - T[b]) <= near]
        interior = 0 < b < N
        require(len(run) >= (2 if interior else 1), 'interval end %r is sampled %d times', T[b], len(run))
        for k in run:
            owner[k] = [b - 1, b] if interior else [max(b - 1, 0)]
        if interior:
            owner[run[0]], owner[run[-1]] = [b - 1], [b]
    for k in range(x.size):
        if not owner[k]:
            require(T[0] <= x[k] <= T[-1], 'sample %r outside the range', x[k])
            owner[k] = [ref.piece(x[k])]
        bad = []
        for i in owner[k]:
            ex, tol = ref.value(x[k], i)
            if tol is None:
                bad = None
                break
            slope = sum(abs(float(r)) for r in ref.ref.deriv_row((polyref.fr(x[k]) - ref.t[i]) / (ref.t[i + 1] - ref.t[i])))
            # x is tau mapped to the interval: x and tau each carry a rounding
            tol = tol + slope * np.max(np.abs(raw[i]), axis=1) * (16 * EPS * (1 + big / (T[i + 1] - T[i])))
            if np.all(np.abs(y[:, k] - ex) <= tol):
                bad = None
                break
            bad.append((i, ex))
        require(bad is None, 'sample value at %r is %s, expected one of %s', x[k], y[:, k], bad)
    info.label('samples')

    # nothing above may have changed the function
    Y = num('values', cut('evaluation', f, np.array(xs)))
    for k, q in enumerate(xs):
        ex, tol = ref.value(q, ref.piece(q))
        if tol is not None:
            require_close('value at t=%r after the other calls' % q, Y[:, k], ex, tol)
    require(all(np.array_equal(a, b) for a, b in zip(coef, keep)), 'coefficients were modified')
