import numpy as np
from hypothesis import strategies as st

import gen
import polyref
from base import cut, rejects, require, require_close, num
from polyref import EPS
from casadi_extras.collocation import collocationPoints, cheb

RULE = ('case = sequence of requests (family, order) / (Chebyshev grid) / unknown family, each answer checked and then '
        'overwritten by the caller; every (family, order) in range is also enumerated; non-trivial = some order >= 2')
BUDGET = {'quick': 3000, 'thorough': 30000}
BAD = ['', 'lobatto', 'Chebyshev', 'gauss', 'legendr', 'chebyshev2', 'uniform', 'RADAU', 'cheb', 'collocation']


def strategy(tier):
    @st.composite
    def req(draw):
        k = draw(st.sampled_from(['pts', 'pts', 'pts', 'cheb', 'bad']))
        if k == 'bad':
            return ['bad', draw(st.integers(1, 9)), draw(st.sampled_from(BAD))]
        if k == 'cheb':
            t0 = draw(gen.val(-20, 20))
            return ['cheb', draw(st.integers(1, 40)), t0,
                    t0 + draw(st.sampled_from([-1, 1])) * draw(st.floats(0.01, 50))]
        f = draw(st.sampled_from(['chebyshev', 'legendre', 'radau']))
        return ['pts', draw(st.integers(1, 40 if f == 'chebyshev' else 9)), f]
    return st.lists(req(), min_size=1, max_size=6).map(lambda r: {'req': r})


def corpus(tier):
    for f in ('legendre', 'radau'):
        for n in range(1, 10):
            yield {'req': [['pts', n, f], ['pts', n, f]]}
    for n in range(1, 61):
        yield {'req': [['pts', n, 'chebyshev'], ['cheb', n, -1.0, 2.5], ['cheb', n, 0.0, 1.0], ['cheb', n, 4.0, 1.0]]}
    for b in BAD:
        yield {'req': [['bad', n, b] for n in range(1, 10)]}


def check(case, info):
    for r in case['req']:
        if r[0] == 'bad':
            rejects('collocationPoints(%d, %r)' % (r[1], r[2]), collocationPoints, r[1], r[2])
        elif r[0] == 'pts':
            n, f = r[1], r[2]
            info.hit(n >= 2)
            info.label(f)
            raw = cut('collocationPoints', collocationPoints, n, f)
            p = num('points', raw)
            ref = polyref.nodes(n, f)
            ref = np.array(ref if f == 'chebyshev' else [0.0] + ref)
            require(p.shape == (n + 1,), 'collocationPoints(%d, %s) has shape %s', n, f, p.shape)
            require_close('collocationPoints(%d, %s)' % (n, f), p, ref, 1e-14)
            require(p[0] == 0.0, 'collocationPoints(%d, %s)[0] = %r', n, f, p[0])
            require(bool(np.all(np.diff(p) > 0)), 'collocationPoints(%d, %s) not strictly increasing', n, f)
            require(bool(np.all(p <= 1.0)), 'collocationPoints(%d, %s) leave [0, 1]', n, f)
            if f != 'legendre':
                require(p[-1] == 1.0, 'collocationPoints(%d, %s)[-1] = %r', n, f, p[-1])
            scribble(raw)
        else:
            n, a, b = r[1:]
            info.hit(n >= 2)
            info.label('cheb')
            D, t = cut('cheb', cheb, n, a, b)
            t = num('grid', t)
            ref = np.array(polyref.nodes(n, 'chebyshev')) * (b - a) + a
            require_close('cheb(%d, %r, %r) grid' % (n, a, b), t, ref, 1e-14 * abs(b - a) + 4 * EPS * (abs(a) + abs(b)))
            scribble(D)


def scribble(a):
    try:
        a[...] = 0.5
    except Exception:
        pass
