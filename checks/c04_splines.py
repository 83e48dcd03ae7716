import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require, as_array
import gen
import history
import large
import ref
from c03_design import make_breaks

PROPERTY = 'C04'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Break points (uniform or not), spline orders 1-7, coefficients, '
        'derivatives and evaluation points (inside, at knots, outside) are '
        'drawn. Non-trivial: at least two intervals and an evaluation point '
        'that is not an end point.')
ASSUMPTIONS = ['The first and the last knot have the full multiplicity '
               '(documented).']


def repeat_knots(knots, breaks, order, repeat, salt):
    """Interior knots of higher multiplicity, never above the order."""
    knots = list(knots)
    for j in range(min(repeat, 2*(breaks.size - 2))):
        b = breaks[1 + (salt + j*(1 + salt % 3)) % (breaks.size - 2)]
        if knots.count(b) < order:
            knots.append(b)
    return np.sort(np.array(knots))


def s_colloc(st):
    @st.composite
    def make(draw):
        return dict(
            order=draw(st.integers(1, 7)), nbreaks=draw(gen.size(st, 8, 300, 2)),
            uniform=draw(st.booleans()), salt=draw(gen.salt(st)),
            deriv=draw(st.one_of(st.none(), st.integers(0, 7))),
            repeat=draw(st.integers(0, 3)),
            x=draw(st.lists(st.one_of(gen.f(st, 0., 1.), st.sampled_from(
                [0., 1., 'knot', -.1, 1.2])), min_size=1, max_size=6)),
            aslist=draw(st.booleans()))
    return make()


def _points(xs, breaks, salt):
    out = []
    for i, x in enumerate(xs):
        if x == 'knot':
            out.append(breaks[(salt + i) % breaks.size])
        elif x == 1.:
            out.append(breaks[-1])
        else:
            out.append(breaks[0] + (breaks[-1] - breaks[0])*x)
            if 0 <= x <= 1:
                out[-1] = min(max(out[-1], breaks[0]), breaks[-1])
    return np.array(out)


def c_colloc(case, ctx):
    mu = harness.chaosmagpy().model_utils
    k, nb = case['order'], case['nbreaks']
    breaks = (np.linspace(-3., 5., nb) if case['uniform']
              else make_breaks(case['salt'], nb, -3., 8.))
    knots = mu.augment_breaks(breaks.tolist() if case['aslist'] else breaks,
                              k)
    own = np.array([breaks[0]]*(k - 1) + list(breaks) + [breaks[-1]]*(k - 1))
    agree(knots, own, 0., 'augment_breaks')
    if case['repeat'] and nb > 2 and k > 1:
        # interior knots may be repeated in a collocation matrix
        i = 1 + case['salt'] % (nb - 2)
        own = np.sort(np.concatenate(
            (own, [breaks[i]]*min(case['repeat'], k - 1))))
        knots = own
        ctx.label('repeated interior knot')
    x = _points(case['x'], breaks, case['salt'])
    d = case['deriv']
    kw = {} if d is None else dict(deriv=d)
    d = d or 0
    C = as_array(mu.colloc_matrix(x, knots, k, **kw), 'colloc_matrix',
                 (x.size, own.size - k))
    inside = (x >= breaks[0]) & (x <= breaks[-1])
    ctx.nontrivial(nb > 2 and np.any((x > breaks[0]) & (x < breaks[-1])))
    ctx.label(f'order={k}', f'deriv={d}',
              'outside' if not inside.all() else 'inside')
    # magnitude of the derivative: known from the smallest knot distance
    sc = max(1., (k / np.min(np.diff(breaks)))**d)
    for i in np.flatnonzero(inside):
        if d >= k:
            agree(C[i], np.zeros(own.size - k), 0., 'high derivative')
            continue
        agree(C[i], ref.bspline_basis(own, k, x[i], d), 1e-9,
              f'B-splines of order {k}, derivative {d} at {x[i]}', scale=sc)
    if d < k:
        require(np.all(np.isnan(C[~inside]) | (C[~inside] == 0)),
                'B-splines outside the knots must be nan')
        rows = C[inside].sum(axis=1)
        agree(rows, np.full(rows.shape, 1. if d == 0 else 0.), 1e-9,
              'partition of unity', scale=sc)
    if d == 0:
        require(np.all(C[inside] >= -1e-12), 'B-splines are not negative')


def s_pp(st):
    @st.composite
    def make(draw):
        return dict(
            order=draw(st.integers(1, 6)), nbreaks=draw(gen.size(st, 8, 300, 2)),
            dim=draw(gen.size(st, 4, 50)), salt=draw(gen.salt(st)),
            span=draw(st.sampled_from([1e-3, 1., 8., 12000.])),
            tiny=draw(st.booleans()),
            repeat=draw(st.sampled_from([0, 0, 0, 1, 2, 4])),
            x=draw(st.lists(st.one_of(gen.f(st, 0., 1.), st.sampled_from(
                [0., 1., 'knot'])), min_size=1, max_size=6)))
    return make()


def c_pp(case, ctx):
    mu = harness.chaosmagpy().model_utils
    k, nb, D = case['order'], case['nbreaks'], case['dim']
    breaks = make_breaks(case['salt'], nb, -.3*case['span'], case['span'])
    if case['tiny'] and nb > 2:     # one short interval
        i = 1 + case['salt'] % (nb - 2)
        breaks[i] = breaks[i+1] - .05*(breaks[i+1] - breaks[i])
    knots = np.array([breaks[0]]*(k - 1) + list(breaks)
                     + [breaks[-1]]*(k - 1))
    knots = repeat_knots(knots, breaks, k, case.get('repeat', 0),
                         case['salt'])
    if knots.size > nb + 2*(k - 1):
        ctx.label('repeated interior knots')
    n = knots.size - k
    coeffs = fill(case['salt'] + 1, n, D)
    cpp, br = mu.pp_from_bspline(coeffs, knots, k)
    agree(br, breaks, 0., 'pp_from_bspline breaks')
    cpp = as_array(cpp, 'pp_from_bspline coefficients', (k, nb - 1, D))
    x = _points(case['x'], breaks, case['salt'])
    ctx.nontrivial(nb > 2 and np.any((x > breaks[0]) & (x < breaks[-1])))
    ctx.label(f'order={k}', f'dim={D}')
    E = np.array([ref.bspline_basis(knots, k, t) @ coeffs for t in x])
    agree(ref.pp_eval(breaks, cpp, x), E, 1e-8, 'piecewise polynomial')
    for d in range(1, k):
        E = np.array([ref.bspline_basis(knots, k, t, d) @ coeffs for t in x])
        sc = (k / np.min(np.diff(breaks)))**d
        agree(ref.pp_eval(breaks, cpp, x, d), E, 1e-8,
              f'derivative {d} of the piecewise polynomial', scale=sc)


# ---- field from a piecewise polynomial ----

def s_synth(st):
    @st.composite
    def make(draw):
        nmax = draw(gen.size(st, 5, 14))
        return dict(
            order=draw(st.integers(1, 5)), pieces=draw(gen.size(st, 5, 400)),
            nmax=nmax, use=draw(st.one_of(st.none(),
                                          st.integers(1, nmax + 1))),
            deriv=draw(st.one_of(st.none(), st.integers(0, 4))),
            salt=draw(gen.salt(st)), grid=draw(st.sampled_from(
                [None, False, True])), ntime=draw(st.integers(1, 3)),
            scalar=draw(st.booleans()), outside=draw(st.booleans()),
            edge=draw(st.integers(0, 3)),
            source=draw(st.sampled_from([None, 'internal', 'external'])))
    return make()


def c_synth(case, ctx):
    mu = harness.chaosmagpy().model_utils
    s, k, nmax = case['salt'], case['order'], case['nmax']
    breaks = make_breaks(s, case['pieces'] + 1, 1000., 4000.)
    D = nmax*(nmax + 2)
    coeffs = fill(s, k, case['pieces'], D)
    coeffs *= (1e-3**np.arange(k)[::-1])[:, None, None]
    nt = 1 if case['scalar'] else case['ntime']
    time = gen.spread(s + 1, (nt,), breaks[0], breaks[-1])
    if case['edge'] == 1:
        time[0] = breaks[-1]
    elif case['edge'] == 2:
        time[0] = breaks[s % breaks.size]
    elif case['edge'] == 3:
        time[0] = breaks[0]
    outside = np.zeros(nt, bool)
    if case['outside']:
        time[-1] = breaks[-1] + 10. if s % 2 else breaks[0] - 1e-3
        outside[-1] = True
    src = case['source'] or 'internal'
    use = min(case['use'] or nmax, nmax)
    kw = {key: case[v] for key, v in
          (('nmax', 'use'), ('deriv', 'deriv'), ('grid', 'grid'),
           ('source', 'source')) if case[v] is not None}
    d = case['deriv'] or 0
    g = np.full((nt, D), np.nan)
    g[~outside] = ref.pp_eval(breaks, coeffs, time[~outside], d)
    g *= 365.25**d
    if case['scalar']:
        time, g = float(time[0]), g[0]
    r = gen.spread(s + 2, (), 6000., 8000.)
    if case['grid']:
        t, p = gen.spread(s + 3, (2,), 1., 179.), gen.spread(
            s + 4, (3,), -180., 180.)
        tm = time if case['scalar'] else time[:, None, None]
        gb = g if case['scalar'] else g[:, None, None, :]
        T, P = t[:, None], p
    else:
        tm, gb = time, g
        t = gen.spread(s + 3, (nt,), 1., 179.)
        p = gen.spread(s + 4, (nt,), -180., 180.)
        if case['scalar']:
            t, p = float(t[0]), float(p[0])
        T, P = t, p
    B = mu.synth_from_pp(breaks, k, coeffs, tm, r, t, p, **kw)
    shape = np.broadcast_shapes(gb.shape[:-1], np.shape(T), np.shape(P))
    A = ref.field_matrix(np.broadcast_to(r, shape),
                         np.broadcast_to(T, shape),
                         np.broadcast_to(P, shape), 1, use, None, src)
    gm = np.moveaxis(np.broadcast_to(gb, shape + (D,)), -1, 0)[:use*(use+2)]
    ctx.nontrivial(case['pieces'] > 1)
    ctx.label(f'deriv={d}', 'grid' if case['grid'] else 'points',
              'outside' if outside.any() else 'inside',
              'truncated' if use < nmax else 'full')
    sc = 50. * nmax**2 * 365.25**d * np.where(d, .005, 1.)**d * 100
    for name, b, a in zip('rtp', B, A):
        agree(b, np.sum(a*gm, axis=0), 1e-10, f'synth_from_pp B_{name}',
              scale=sc, equal_nan=True)


def _large_pp(cp, salt, n):
    b, c = np.array([0., 3., 4., 9.]), fill(salt, 4, 3, 8)
    return (lambda *a: cp.model_utils.synth_from_pp(b, 4, c, *a, deriv=1), (
        gen.spread(salt, (n,), 0., 9.),
        gen.spread(salt + 1, (n,), 6000., 8000.),
        gen.spread(salt + 2, (n,), 0.5, 179.5),
        gen.spread(salt + 3, (n,), -180., 360.)), 1e6)


def _large_colloc(cp, salt, n):
    k = cp.model_utils.augment_breaks(np.array([0., 3., 4., 9.]), 4)
    return (lambda t: cp.model_utils.colloc_matrix(t, k, 4), (
        gen.spread(salt, (n,), 0., 9.),), 1.)


LARGE = dict(pp=_large_pp, colloc=_large_colloc)


FACETS = [
    Facet('colloc', s_colloc, c_colloc, 1600),
    Facet('pp', s_pp, c_pp, 1000),
    Facet('synth', s_synth, c_synth, 1000),
    large.facet(LARGE),
    large.layout(LARGE, ['colloc'], native=['colloc']),
    large.alike(LARGE),
    history.facet('C04', 60),
]
