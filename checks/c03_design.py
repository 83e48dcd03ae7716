import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require, as_array
import gen
import history
import large
import ref

PROPERTY = 'C03'
SCALE = 5         # times the cases of each facet in quick runs
RULE = ('Positions, degree and order ranges, sources, spline orders, knots '
        'and times are drawn; every column of the matrices is compared with '
        'the reference. Non-trivial: more than one degree and more than one '
        'order, or more than one spline interval.')
ASSUMPTIONS = ['Spline knots have full endpoint multiplicity (documented).']


def s_gauss(st):
    @st.composite
    def make(draw):
        nmax = draw(gen.size(st, 12, 30))
        return dict(
            shapes=draw(gen.broadcast_shapes(st, 3, 2, 3)), nmax=nmax,
            nmin=draw(st.one_of(st.none(), st.integers(1, nmax))),
            mmax=draw(st.one_of(st.none(), st.integers(0, nmax))),
            source=draw(st.sampled_from([None, 'internal', 'external'])),
            salt=draw(gen.salt(st)),
            theta=draw(st.one_of(st.none(), gen.theta(st),
                                  st.sampled_from([0., 180.]))),
            phi=draw(st.one_of(st.none(), gen.phi(st))),
            r_surf=draw(st.sampled_from([None, None, 6371.0, 3485.])))
    return make()


def c_gauss(case, ctx):
    cp = harness.chaosmagpy()
    s = case['salt']
    shr, sht, shp = case['shapes']
    r = gen.spread(s + 1, shr, 4000., 9000.)
    t = gen.spread(s + 2, sht, 0.1, 179.9)
    p = gen.spread(s + 3, shp, -360., 360.)
    if case['theta'] is not None:
        t.reshape(-1)[0] = case['theta']
    if case['phi'] is not None:
        p.reshape(-1)[0] = case['phi']
    r_ref = case['r_surf'] or ref.R_REF
    if case['r_surf']:
        cp.basicConfig['params.r_surf'] = r_ref
    nmax = case['nmax']
    nmin = case['nmin'] or 1
    mmax = nmax if case['mmax'] is None else case['mmax']
    src = case['source'] or 'internal'
    kw = {k: case[k] for k in ('nmin', 'mmax', 'source')
          if case[k] is not None}
    A = cp.model_utils.design_gauss(r, t, p, nmax, **kw)
    require(len(A) == 3, 'design_gauss: three matrices expected')
    E = ref.field_matrix(r, t, p, nmin, nmax, mmax, src, r_ref)
    lst = ref.index_list(nmin, nmax, mmax)
    ctx.nontrivial(nmax > nmin and mmax > 1)
    ctx.label('pole' if np.any((t == 0) | (t == 180)) else 'no pole',
              'nmin>1' if nmin > 1 else 'nmin=1',
              'mmax<nmin-1' if mmax < nmin - 1 else 'mmax>=nmin-1', src)
    rho = np.broadcast_to(r, E[0].shape[1:]) / r_ref
    n = np.array([x[0] for x in lst])
    f = (n + 1.) * (rho[..., None]**(n - 1.) if src == 'external'
                    else rho[..., None]**-(n + 2.))
    for name, a, e in zip('rtp', A, E):
        agree(a, np.moveaxis(e, 0, -1), 1e-9, f'design_gauss A_{name}',
              scale=f)
    # the matrices and the direct synthesis agree for any coefficients
    c = fill(s + 9, len(lst))
    kw2 = dict(kw, nmax=nmax)
    B = cp.model_utils.synth_values(c, r, t, p, **kw2)
    sc = ref.field_scale(c, rho*r_ref, nmin, nmax, mmax, src, r_ref)
    for name, a, b in zip('rtp', A, B):
        agree(b, np.asarray(a) @ c, 1e-10, f'design_gauss vs synth_values '
              f'B_{name}', scale=sc)


# ---- spline design matrix ----

def s_matrix(st):
    @st.composite
    def make(draw):
        order = draw(st.integers(1, 6))
        npts = draw(st.integers(1, 5))
        n_tdep = draw(gen.size(st, 3, 9))
        return dict(
            order=order, nbreaks=draw(gen.size(st, 6, 100, 2)),
            salt=draw(gen.salt(st)), n_tdep=n_tdep,
            n_static=draw(st.one_of(st.none(),
                                    st.integers(n_tdep, n_tdep + 3))),
            at=[draw(st.one_of(gen.f(st, 0., 1.), st.sampled_from(
                [0., 1., 'knot'])))
                for _ in range(npts)],
            near=draw(st.sampled_from([None, None, 1e-2, 1e-5, 1e-9])),
            source=draw(st.sampled_from([None, 'internal', 'external'])))
    return make()


def make_breaks(salt, n, start=-2000., span=12000., short=True):
    steps = 1.1 + fill(salt + 77, n - 1)
    if short and salt % 8 == 5:       # a piece that is much shorter than the others
        steps[salt // 8 % (n - 1)] *= 10.**-(1 + salt // 64 % 5)
    b = np.concatenate(([0.], np.cumsum(steps)))
    return start + span * b / b[-1]


def c_matrix(case, ctx):
    cp = harness.chaosmagpy()
    s, k = case['salt'], case['order']
    breaks = make_breaks(s, case['nbreaks'])
    knots = np.array([breaks[0]]*(k - 1) + list(breaks)
                     + [breaks[-1]]*(k - 1))
    time = np.array([
        breaks[(s + 3*i) % breaks.size] if x == 'knot'
        else breaks[0] + (breaks[-1] - breaks[0]) * x
        for i, x in enumerate(case['at'])])
    time = np.clip(time, breaks[0], breaks[-1])
    n = time.size
    r = gen.spread(s + 1, (n,), 6000., 8000.)
    t = gen.spread(s + 2, (n,), 0.5, 179.5)
    p = gen.spread(s + 3, (n,), -180., 360.)
    if case.get('near'):
        t[s % n] = case['near'] if s % 3 else 180. - case['near']
    kw = {}
    if case['n_static'] is not None:
        kw['n_static'] = case['n_static']
    if case['source'] is not None:
        kw['source'] = case['source']
    src = case['source'] or 'internal'
    nt = case['n_tdep']
    ns = nt if case['n_static'] is None else case['n_static']
    G = cp.model_utils.design_matrix(knots, k, nt, time, r, t, p, **kw)
    E = ref.field_matrix(r, t, p, 1, ns, None, src)
    S = np.array([ref.bspline_basis(knots, k, x) for x in time])
    nc = nt*(nt + 2)
    ctx.nontrivial(case['nbreaks'] > 2 and (nt > 1 or ns > nt))
    ctx.label(f'order={k}', 'static part' if ns > nt else 'no static part')
    for name, g, e in zip('rtp', G, E):
        cols = [e[i][:, None] * S for i in range(nc)] + [e[nc:].T]
        agree(g, np.concatenate(cols, axis=1), 1e-9,
              f'design_matrix G_{name}', scale=50.)
    # and the product with spline coefficients is the field of that model
    m = fill(s + 5, nc * S.shape[1])
    C = m.reshape(nc, S.shape[1])
    cpp, br = cp.model_utils.pp_from_bspline(C.T.copy(), knots, k)
    B = cp.model_utils.synth_from_pp(br, k, cpp, time, r, t, p, source=src)
    for name, g, b in zip('rtp', G, B):
        agree(b, np.asarray(g)[:, :nc*S.shape[1]] @ m, 1e-8,
              f'synth_from_pp B_{name} vs design_matrix', scale=50.)


def s_bad(st):
    return st.fixed_dictionaries(dict(
        n_tdep=st.integers(2, 4), less=st.integers(1, 3),
        theta=st.sampled_from([0., 180., -5., 190., None]),
        salt=gen.salt(st)))


def c_bad(case, ctx):
    cp = harness.chaosmagpy()
    knots = np.array([0., 0., 1., 2., 2.])
    time = np.array([0.5, 1.5])
    r, t, p = np.full(2, 6371.2), np.array([30., 60.]), np.array([0., 90.])
    ctx.nontrivial()
    if case['theta'] is None:
        n_static = max(1, case['n_tdep'] - case['less'])
        rejects('design_matrix n_static < n_tdep',
                cp.model_utils.design_matrix, knots, 2, case['n_tdep'], time,
                r, t, p, n_static=n_static, exc=ValueError)
    else:
        t[1] = case['theta']
        rejects(f'design_matrix theta={case["theta"]}',
                cp.model_utils.design_matrix, knots, 2, case['n_tdep'], time,
                r, t, p)
    rejects('design_matrix shapes', cp.model_utils.design_matrix, knots, 2,
            case['n_tdep'], time[:1], r, np.array([30., 60.]), p)


# ---- Legendre functions ----

def s_legendre(st):
    return st.fixed_dictionaries(dict(
        nmax=st.one_of(st.integers(1, 12), st.integers(1, 60)),
        theta=st.lists(gen.theta(st), min_size=1, max_size=4),
        shape=st.sampled_from(['0d', '1d', '2d'])))


def c_legendre(case, ctx):
    cp = harness.chaosmagpy()
    t = np.array(case['theta'])
    if case['shape'] == '0d':
        t = t[0]
    elif case['shape'] == '2d':
        t = t[:, None] + np.zeros(2)
    nmax = case['nmax']
    P = as_array(cp.model_utils.legendre_poly(nmax, t), 'legendre_poly',
                 (nmax + 1, nmax + 2) + t.shape)
    ctx.nontrivial(nmax > 2 and np.any(t % 90 != 0))
    ctx.label(case['shape'], 'nmax>12' if nmax > 12 else 'nmax<=12')
    for n in range(1, nmax + 1):
        for m in range(n + 1):
            if nmax > 16 and (7*n + 3*m) % 11 and n < nmax - 1:
                continue
            agree(P[n, m], ref.schmidt(n, m, t), 1e-9, f'P({n},{m})',
                  scale=1.)
            agree(P[m, n+1], ref.schmidt_diff(n, m, t), 1e-9,
                  f'dP({n},{m})', scale=n)
    # addition theorem
    for n in (1, nmax):
        agree(np.sum(P[n, :n+1]**2, axis=0), np.ones(t.shape), 1e-9,
              f'addition theorem, degree {n}')


def _large_gauss(cp, salt, n):
    return (lambda *a: cp.model_utils.design_gauss(*a, 3), (
        gen.spread(salt + 1, (n,), 6000., 8000.),
        gen.spread(salt + 2, (n,), 0.5, 179.5),
        gen.spread(salt + 3, (n,), -180., 360.)), 10.)


def _large_matrix(cp, salt, n):
    k = cp.model_utils.augment_breaks(np.array([0., 3., 4., 9.]), 4)
    return (lambda *a: cp.model_utils.design_matrix(k, 4, 1, *a), (
        gen.spread(salt, (n,), 0., [9., 3.5, 1., 9.][salt % 4]),
        gen.spread(salt + 1, (n,), 6000., 8000.),
        gen.spread(salt + 2, (n,), 0.5, 179.5),
        gen.spread(salt + 3, (n,), -180., 360.)), 10.)


def _large_legendre(cp, salt, n):
    return (lambda t: np.moveaxis(cp.model_utils.legendre_poly(4, t), (0, 1),
                                  (-2, -1)),
            (gen.spread(salt, (n,), 0., 180.),), 10.)


def s_high(st):
    return st.fixed_dictionaries(dict(
        nmax=st.integers(61, 150),
        theta=st.lists(st.one_of(gen.theta(st), gen.f(st, 5., 175.)),
                       min_size=1, max_size=3)))


def c_high(case, ctx):
    # sums over the orders, also of the derivatives
    t, nmax = np.array(case['theta']), case['nmax']
    P = as_array(harness.chaosmagpy().model_utils.legendre_poly(nmax, t),
                 'legendre_poly', (nmax + 1, nmax + 2) + t.shape)
    ctx.nontrivial(np.any((t > 10.) & (t < 170.)))
    ctx.label('above 100' if nmax > 100 else 'above 60')
    for n in range(1, nmax + 1):
        agree(np.sum(P[n, :n+1]**2, axis=0), np.ones(t.shape), 1e-9,
              f'addition theorem, degree {n} of {nmax}')
        agree(np.sum(P[:n+1, n+1]**2, axis=0), np.full(
            t.shape, n*(n + 1)/2.), 1e-9,
              f'derivatives: addition theorem, degree {n} of {nmax}')
        agree(np.sum(P[n, :n+1]*P[:n+1, n+1], axis=0), np.zeros(t.shape),
              1e-9, f'values times derivatives, degree {n} of {nmax}',
              scale=n)


LARGE = dict(gauss=_large_gauss, matrix=_large_matrix,
             legendre=_large_legendre)


FACETS = [
    Facet('gauss', s_gauss, c_gauss, 1600),
    Facet('matrix', s_matrix, c_matrix, 600),
    Facet('bad', s_bad, c_bad, 80),
    Facet('high', s_high, c_high, 30),
    Facet('legendre', s_legendre, c_legendre, 600),
    large.facet(LARGE),
    large.layout(LARGE, ['matrix'], native=['matrix']),
    large.alike(LARGE),
    history.facet('C03', 96),
]
