import numpy as np
from hypothesis import strategies as st

import gen
import ppref
from base import cut, rejects, require, require_equal, require_close, num
from casadi_extras.collocation import PiecewisePoly, PolynomialBasis

RULE = ('case = interval bounds (not equidistant, shifted), basis nodes, independent (discontinuous) coefficients per '
        'interval, query times at/next to/between/outside bounds with repeats; non-trivial = at least 2 intervals and a '
        'query that is compared')
BUDGET = {'quick': 4000, 'thorough': 60000}


def strategy(tier):
    @st.composite
    def case(draw):
        t = draw(gen.grid(max_intervals=draw(st.sampled_from([2, 4, 9, 30]))))
        v = draw(gen.nodes(unit=True, max_n=8))
        m = draw(st.integers(1, 3))
        N = len(t) - 1
        if N > 9:
            # long grids: cheap structured coefficients
            k = draw(st.integers(1, 50))
            coef = [[[float((i * 7 + r * 3 + j * k) % 11 - 5) for j in range(len(v))] for r in range(m)] for i in range(N)]
        else:
            coef = [draw(gen.matrix(m, len(v))) for _ in range(N)]
        return {'t': t, 'nodes': v, 'coef': coef,
                'q': draw(gen.time_queries(7)),
                'cont': draw(st.sampled_from([None, 'right', 'left', 'left'])),
                'q_as': draw(st.sampled_from(['array', 'list', 'scalar'])),
                't_as': draw(st.sampled_from(gen.GRID_AS)),
                'bad': draw(st.sampled_from(['both', '', 'Left', 'center', 'rigth', 'l']))}
    return case()


def corpus(tier):
    for cont in (None, 'left', 'right'):
        for N in (1, 2, 5):
            yield {'t': [float(k * k + k) for k in range(N + 1)], 'nodes': [0.0, 0.5, 1.0],
                   'coef': [[[1.0 + i, -2.0 * i, 3.0]] for i in range(N)],
                   'q': [['bound', k, 1] for k in range(N + 1)] + [['ulp', k, -1] for k in range(N + 1)]
                   + [['ulp', k, 1] for k in range(N + 1)], 'cont': cont, 'q_as': 'array', 't_as': 'list', 'bad': 'both'}


def bounds(case):
    return gen.as_grid(case['t'], case['t_as'])


def check(case, info):
    t = bounds(case)
    N = len(t) - 1
    coef = [np.array(c, dtype=float) for c in case['coef']]
    ref = ppref.Pieces(case['t'], case['coef'], case['nodes'])
    basis = cut('PolynomialBasis', PolynomialBasis, np.array(case['nodes']))
    f = cut('PiecewisePoly', PiecewisePoly, t, coef, basis)
    g = cut('PiecewisePoly', PiecewisePoly, [0, 1], [np.array([[7.0, 9.0]])], PolynomialBasis([0.0, 1.0]))
    require_equal('interval bounds', num('intervals', f.intervals), np.array(case['t']))
    require(f.numIntervals == N, 'numIntervals %s instead of %d', f.numIntervals, N)

    xs = [gen.resolve_time(q, case['t']) for q in case['q']]
    kw = {} if case['cont'] is None else {'continuity': case['cont']}
    side = case['cont'] or 'right'
    m = len(coef[0])
    if case['q_as'] == 'scalar':
        cols = []
        for x in xs:
            y = num('value', cut('evaluation at %r' % x, f, x, **kw))
            require(y.shape == (m, 1), 'value at one point has shape %s', y.shape)
            cols.append(y)
        Y = np.hstack(cols)
    else:
        q = np.array(xs) if case['q_as'] == 'array' else list(xs)
        Y = num('values', cut('evaluation', f, q, **kw))
        require(list(q) == xs, 'query points were modified')
    require(Y.shape == (m, len(xs)), 'values at %d points have shape %s', len(xs), Y.shape)
    cut('evaluation', g, 0.3)
    known = {}
    for k, x in enumerate(xs):
        i = ref.piece(x, side)
        if x not in known:
            known[x] = ref.value(x, i)
        ex, tol = known[x]
        if tol is None:
            continue
        info.hit(N >= 2)
        if x in case['t'][1:-1]:
            info.label('breakpoint ' + side)
        info.label('outside' if not case['t'][0] <= x <= case['t'][-1] else 'inside')
        require_close('value at t=%r (interval %d, %s)' % (x, i, side), Y[:, k], ex, tol)
    y0 = num('value', cut('evaluation', f, xs[0], **kw))
    ex, tol = ref.value(xs[0], ref.piece(xs[0], side))
    if tol is not None:
        require_close('value at t=%r asked again alone' % xs[0], y0[:, 0], ex, tol)
    rejects('%d coefficient matrices for %d intervals' % (N + 1, N), PiecewisePoly, t, coef + coef[:1], basis)
    rejects('%d coefficient matrices for %d intervals' % (N - 1, N), PiecewisePoly, t, coef[:-1], basis)
    rejects('a single interval bound', PiecewisePoly, t[:1], [], basis)
    rejects('continuity=%r' % case['bad'], f, xs[0], continuity=case['bad'])
    require_equal('interval bounds after evaluation', num('intervals', f.intervals), np.array(case['t']))
    require(all(np.array_equal(a, np.array(b)) for a, b in zip(coef, case['coef'])), 'coefficients were modified')
