"""Random DAE models as JSON, with an independent numpy evaluation."""
import math

import casadi as cs
import numpy as np
from hypothesis import strategies as st

import gen
import polyref

VARS = ('x', 'z', 'u', 'p', 'd', 'xd')          # d: time-dependent parameter


def expr(sizes, time=True, depth=3):
    """Strategy for an expression over the variables in sizes (dict name -> size)."""
    leaves = [st.tuples(st.just('c'), st.integers(-6, 6).map(lambda k: k / 2.0)).map(list)]
    for v in VARS:
        if sizes.get(v, 0):
            leaves += [st.tuples(st.just(v), st.integers(0, sizes[v] - 1)).map(list)] * 2
    if time:
        leaves.append(st.just(['t']))
    leaf = st.one_of(*leaves)

    def ext(inner):
        return st.one_of(
            st.tuples(st.sampled_from(['+', '-', '*', '+', '*']), inner, inner).map(list),
            st.tuples(st.sampled_from(['sin', 'cos', 'neg']), inner).map(list))
    return st.recursive(leaf, ext, max_leaves=6)


def to_mx(e, s):
    k = e[0]
    if k == 'c':
        return cs.MX(e[1])
    if k == 't':
        return s['t']
    if k in VARS:
        return s[k][e[1]]
    a = to_mx(e[1], s)
    if k == 'sin':
        return cs.sin(a)
    if k == 'cos':
        return cs.cos(a)
    if k == 'neg':
        return -a
    b = to_mx(e[2], s)
    return a + b if k == '+' else a - b if k == '-' else a * b


def ev(e, s):
    """(value, magnitude): magnitude bounds the sensitivity to relative perturbation of the leaves."""
    k = e[0]
    if k == 'c':
        return e[1], abs(e[1])
    if k == 't':
        return s['t'], abs(s['t'])
    if k in VARS:
        v = float(s[k][e[1]])
        return v, abs(v)
    a, ma = ev(e[1], s)
    if k == 'sin':
        return math.sin(a), ma + 1
    if k == 'cos':
        return math.cos(a), ma + 1
    if k == 'neg':
        return -a, ma
    b, mb = ev(e[2], s)
    if k == '+':
        return a + b, ma + mb
    if k == '-':
        return a - b, ma + mb
    return a * b, 2 * ma * mb


def evs(es, s):
    r = [ev(e, s) for e in es]
    return np.array([v for v, _ in r], dtype=float), np.array([m for _, m in r], dtype=float)


def uses(es, name):
    return any(e[0] == name or any(isinstance(a, list) and uses([a], name) for a in e[1:]) for e in es)


@st.composite
def model(draw, implicit=None, tdp=True, time=True, structs=True):
    """A DAE with arbitrary equations (not necessarily solvable)."""
    n = {'x': draw(st.sampled_from([1, 1, 2, 2, 3, 3, 5])), 'z': draw(st.integers(0, 2)), 'u': draw(st.integers(0, 2)),
         'p': draw(st.integers(0, 2)), 'd': draw(st.integers(0, 2)) if tdp else 0}
    imp = draw(st.booleans()) if implicit is None else implicit
    nq = draw(st.integers(0, 2))
    m = {'n': n, 'implicit': imp}
    full = dict(n)
    if imp:
        full['xd'] = n['x']
        m['dae'] = draw(st.lists(expr(full, time), min_size=n['x'] + n['z'], max_size=n['x'] + n['z']))
    else:
        m['ode'] = draw(st.lists(expr(n, time), min_size=n['x'], max_size=n['x']))
        m['alg'] = draw(st.lists(expr(n, time), min_size=n['z'], max_size=n['z']))
    m['quad'] = draw(st.lists(expr(n, time), min_size=nq, max_size=nq))
    m['omit'] = draw(st.booleans())              # leave out empty parts, or pass empty symbols
    m['t'] = bool(time)
    m['structs'] = draw(st.sampled_from([[], [], ['x'], ['u', 'p'], ['x', 'z', 'u', 'p']])) if structs else []
    if n['d']:
        # tdp(t) = a + b t + c sin(t)
        m['tdp'] = draw(gen.matrix(n['d'], 3, st.integers(-4, 4).map(lambda k: k / 2.0)))
    return m


def symbol(name, size, as_struct):
    if as_struct and size > 0:
        import casadi_extras as ce
        if size == 1:
            return ce.struct_symMX([ce.entry('a')])
        return ce.struct_symMX([ce.entry('a'), ce.entry('b', shape=size - 1)])
    return cs.MX.sym(name, size)


def build(m):
    """(DAE object, symbols)."""
    from casadi_extras.dae_model import SemiExplicitDae, ImplicitDae
    n = m['n']
    names = {'x': 'x', 'z': 'z', 'u': 'u', 'p': 'p', 'd': 'tdp'}
    raw = {k: symbol(names[k], n[k], k in m['structs']) for k in names}
    s = {k: (v if isinstance(v, cs.MX) else v.cat) for k, v in raw.items()}
    s['t'] = cs.MX.sym('t')
    kw = {'x': raw['x']}
    for k in ('z', 'u', 'p', 'd'):
        if n[k] or not m['omit']:
            kw[names[k]] = raw[k]
    exprs = [e for key in ('ode', 'alg', 'dae', 'quad') for e in m.get(key, [])]
    if uses(exprs, 't') or not m['omit']:
        kw['t'] = s['t']
    if m['quad'] or not m['omit']:
        kw['quad'] = column([to_mx(e, s) for e in m['quad']])
    if m['implicit']:
        kw['xdot'] = s['xd'] = cs.MX.sym('xdot', n['x'])
        kw['dae'] = column([to_mx(e, s) for e in m['dae']])
        return ImplicitDae(**kw), s, kw
    kw['ode'] = column([to_mx(e, s) for e in m['ode']])
    if m['alg'] or not m['omit']:
        kw['alg'] = column([to_mx(e, s) for e in m['alg']])
    return SemiExplicitDae(**kw), s, kw


def column(parts):
    return cs.vertcat(*parts) if parts else cs.MX(0, 1)


def tdp_value(m, t):
    return np.array([a + b * t + c * math.sin(t) for a, b, c in m['tdp']]) if m.get('tdp') else np.zeros(0)


def tdp_fun(m, kind):
    if not m.get('tdp'):
        return None
    if kind == 'function':
        t = cs.MX.sym('t')
        return cs.Function('tdp', [t], [cs.vertcat(*[a + b * t + c * cs.sin(t) for a, b, c in m['tdp']])])
    if kind == 'DM':
        return lambda t: cs.DM(tdp_value(m, t))
    return lambda t: tdp_value(m, t)


def residual(m, s):
    """DAE residual (value, magnitude) at a point s = dict x, z, u, p, d, xd, t."""
    if m['implicit']:
        return evs(m['dae'], s)
    o, mo = evs(m['ode'], s)
    a, ma = evs(m['alg'], s)
    xd = np.asarray(s['xd'], dtype=float)
    return np.concatenate([xd - o, a]), np.concatenate([np.abs(xd) + mo, ma])


_tab = {}


def tableau(order, method):
    """Independent Butcher tableau (A, b, c) in floats."""
    key = (order, method)
    if key not in _tab:
        c = polyref.nodes(order, method)
        ref = polyref.Lagrange(c)
        A = np.array([polyref.floats(ref.integral_row(x)) for x in c])
        b = polyref.floats(ref.integral_row(1))
        _tab[key] = (A, b, np.array(c))
    return _tab[key]


def dm(a, rows, cols):
    """DM of the given shape, also for empty data."""
    return cs.DM(np.array(a, dtype=float).reshape(rows, cols)) if rows * cols else cs.DM(rows, cols)


def lin(terms):
    """Sum of coefficient * leaf."""
    e = ['c', 0.0]
    for a, leaf in terms:
        if a:
            e = ['+', e, ['*', ['c', a], leaf]]
    return e


@st.composite
def regular(draw, autonomous=False, tdp=True, implicit=None, structs=True, branch=None):
    """A DAE whose initial value problem has a unique smooth solution near the guess."""
    n = {'x': draw(st.sampled_from([1, 1, 2, 2, 3, 3, 5])), 'z': draw(st.integers(0, 2)), 'u': draw(st.integers(0, 2)),
         'p': draw(st.integers(0, 2)), 'd': draw(st.integers(0, 1)) if tdp and not autonomous else 0}
    big = n['x'] > 3                    # keep Newton's method within reach of the guess
    q = st.integers(-4, 4).map(lambda k: k / (16.0 if big else 4.0))
    leaves = [[k, i] for k in ('x', 'z', 'u', 'p', 'd') for i in range(n[k])] + ([] if autonomous else [['t']])
    noz = [l for l in leaves if l[0] != 'z']

    def nl(pool):
        a, b = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
        kind = draw(st.sampled_from(['sin', 'prod', 'none', 'cos']))
        if kind == 'none':
            return ['c', 0.25]
        if kind == 'prod':
            return ['*', ['sin', a], ['cos', b]]
        return [kind, ['+', a, ['*', ['c', 0.5], b]]]

    def rhs(pool):
        terms = [(draw(q) * (1.0 if l[0] != 'z' else 0.5), l) for l in pool]
        return ['+', lin(terms), ['*', ['c', draw(q) * 0.5], nl(pool)]]

    imp = draw(st.booleans()) if implicit is None else implicit
    m = {'n': n, 'implicit': imp, 'omit': draw(st.booleans()), 't': not autonomous,
         'structs': draw(st.sampled_from([[], [], ['x'], ['u', 'p'], ['x', 'z', 'u', 'p']])) if structs else []}
    ode = [rhs(leaves) for _ in range(n['x'])]
    alg = []
    use_branch = n['z'] > 0 and n['x'] <= 3 and (draw(st.booleans()) if branch is None else branch)
    all_branch = use_branch and draw(st.booleans())
    for i in range(n['z']):
        if use_branch and (i == 0 or all_branch):
            # a Newton step in x must not be able to turn the sign of z
            l = draw(st.sampled_from(noz))
            g = ['+', ['c', 2.0], ['*', ['c', 0.0625 if l[0] == 'x' else 0.5], ['sin', l]]]
            alg.append(['-', ['*', ['z', i], ['z', i]], g])
        else:
            d = draw(st.sampled_from([2.0, 3.0, -2.0]))
            other = ['sin', draw(st.sampled_from([l for l in leaves if l[0] == 'z']))]
            alg.append(['+', ['-', ['*', ['c', d], ['z', i]], rhs(noz)], ['*', ['c', 0.5], other]])
    m['branch'] = bool(use_branch)
    m['branches'] = list(range(n['z'] if all_branch else 1)) if use_branch else []
    if imp:
        xd = [['xd', i] for i in range(n['x'])]
        dae = []
        for i in range(n['x']):
            d = draw(st.sampled_from([1.0, 2.0, -1.0, -3.0]))
            k = draw(st.integers(0, n['x'] - 1))
            lead = ['+', ['*', ['c', d], xd[i]], ['*', ['c', 0.25], ['sin', xd[k]]]]
            dae.append(['-', lead, ode[i]])
        dae += alg
        m['dae'] = draw(st.permutations(dae))
    else:
        m['ode'], m['alg'] = ode, alg
    m['quad'] = [rhs(leaves) for _ in range(draw(st.integers(0, 2)))]
    if n['d']:
        m['tdp'] = draw(gen.matrix(n['d'], 3, q))
    return m


@st.composite
def short_grid(draw, max_intervals=4, shifts=(0.0, 0.0, 0.5, -1.25, 3.0)):
    n = draw(st.integers(1, max_intervals) if draw(st.integers(0, 9)) else st.integers(5, 12))
    t = [draw(st.sampled_from(list(shifts)))]
    kind = draw(st.sampled_from(['uniform', 'free', 'free']))
    step = st.integers(1, 12 if n <= 5 else 3).map(lambda k: k / 32.0)
    h = draw(step)
    for _ in range(n):
        t.append(t[-1] + (h if kind == 'uniform' else draw(step)))
    return t


@st.composite
def ivp(draw, **kw):
    m = draw(regular(**kw))
    n = m['n']
    t = draw(short_grid())
    order = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 9]))
    if m['branch']:
        t = t[:5]              # far from the guess, Newton's method may leave the branch
    if len(t) > 6:
        order = min(order, 3)
    if order > 5:
        t = t[:3]
    v = gen.val(-2, 2)
    z0 = draw(st.lists(v, min_size=n['z'], max_size=n['z']))
    for i in m['branches']:
        z0[i] = draw(st.sampled_from([-1.0, 1.0])) * draw(st.floats(1.1, 2.0))
    return {'model': m, 't': t, 'order': order, 'method': draw(st.sampled_from(['legendre', 'radau', 'default'])),
            'x0': draw(st.lists(v, min_size=n['x'], max_size=n['x'])), 'z0': z0,
            'u': draw(gen.matrix(n['u'], len(t) - 1, v)), 'p': draw(st.lists(v, min_size=n['p'], max_size=n['p'])),
            't_as': draw(st.sampled_from(gen.GRID_AS)), 'tdp_as': draw(st.sampled_from(['numpy', 'DM', 'function'])),
            'factory': draw(st.booleans()), 'call': draw(st.sampled_from(['kw', 'pos'])), 'same_name': draw(st.booleans())}


def integrator(case, dae, t=None, tdp=None, name='I'):
    from casadi_extras.collocation import CollocationIntegrator, collocationIntegrator
    t = case['t'] if t is None else t
    t = gen.as_grid(t, case['t_as'])
    kw = {}
    if case['method'] != 'default':
        kw['method'] = case['method']
    f = tdp_fun(case['model'], case['tdp_as'])
    if f is not None:
        kw['tdp_fun'] = f
    make = collocationIntegrator if case['factory'] else CollocationIntegrator
    return make(name, dae, t, case['order'], **kw)


def run(case, I, x0=None, u=None, N=None, integrate=False):
    """Outputs of the integrator as a dict of DM."""
    n = case['model']['n']
    N = len(case['t']) - 1 if N is None else N
    x0 = case['x0'] if x0 is None else x0
    u = case['u'] if u is None else u
    a = [dm(x0, n['x'], 1), dm(case['z0'], n['z'], 1), dm(u, n['u'], N), dm(case['p'], n['p'], 1)]
    f = I.integrate if integrate else I
    if case['call'] == 'pos':
        out = f(*a)
        if not isinstance(out, dict):
            out = dict(zip(I.name_out(), out))
        return out
    kw = dict(zip(['x0', 'z0', 'u', 'p'], a))
    return f(**{k: w for k, w in kw.items() if w.numel()})
