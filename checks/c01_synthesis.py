import numpy as np
import harness
from harness import Facet, agree, fill, require
import gen
import history
import large
import ref

PROPERTY = 'C01'
SCALE = 3         # times the cases of each facet in quick runs
RULE = ('Coefficients, degree range, order limit, source, positions and their '
        'array layout are drawn by Hypothesis; non-trivial: some coefficient '
        'of order m > 0 is non-zero and some position is neither at a pole '
        'nor on the equator.')
ASSUMPTIONS = ['Radii between 0.5 and 4 Earth radii, and at times the '
               'centre (external '
               'sources) or far away (internal sources); degrees to 20 (quick) '
               'or 90 (high-degree facet).',
               'Rounding tolerance 1e-11 of the sum of the magnitudes of the '
               'single contributions.']


def expected(c, r, t, p, nmin, nmax, mmax, source, r_ref=ref.R_REF):
    """Reference for arrays broadcast as the documentation says."""
    c = np.asarray(c)
    shape = np.broadcast_shapes(c.shape[:-1], np.shape(r), np.shape(t),
                                np.shape(p))
    r, t, p = (np.broadcast_to(a, shape) for a in (r, t, p))
    cb = np.broadcast_to(c, shape + c.shape[-1:])
    n = len(ref.index_list(nmin, nmax, mmax))
    A = ref.field_matrix(r, t, p, nmin, nmax, mmax, source, r_ref)
    cm = np.moveaxis(cb[..., :n], -1, 0)
    scale = ref.field_scale(cb, r, nmin, nmax, mmax, source, r_ref)
    return [np.sum(a * cm, axis=0) for a in A], scale


def judge(case, ctx, c, r, t, p, kwargs, nmin, nmax, mmax, source,
          grid=False, tt=None, pp=None, r_ref=ref.R_REF):
    cp = harness.chaosmagpy()
    out = cp.model_utils.synth_values(c, r, t, p, **kwargs)
    require(len(out) == 3, 'synth_values: three components expected')
    exp, scale = expected(np.asarray(c, float), np.asarray(r, float),
                          np.asarray(t if tt is None else tt, float),
                          np.asarray(p if pp is None else pp, float),
                          nmin, nmax, mmax, source, r_ref)
    for name, a, e in zip(('B_radius', 'B_theta', 'B_phi'), out, exp):
        agree(a, e, 1e-11, f'synth_values {name}', scale=scale + 1e-300)


# ---- a few points, any degree range ----

def s_points(st):
    @st.composite
    def make(draw):
        npts = draw(st.integers(1, 4))
        nmax = draw(st.one_of(st.integers(1, 8), st.integers(1, 20)))
        nmin = draw(st.one_of(st.just(1), st.integers(1, nmax)))
        mmax = draw(st.one_of(st.just(nmax), st.integers(0, nmax)))
        return dict(
            theta=[draw(gen.theta(st)) for _ in range(npts)],
            phi=[draw(gen.phi(st)) for _ in range(npts)],
            radius=[draw(gen.radius(st)) for _ in range(npts)],
            nmax=nmax, nmin=nmin, mmax=mmax,
            give=draw(st.integers(0, 3)),
            extra=draw(st.integers(0, 3)),
            source=draw(st.sampled_from([None, 'internal', 'external'])),
            remote=draw(st.sampled_from([None]*9 + [0, 1, 2])),
            kind=draw(st.sampled_from(['array', 'list', 'float'])),
            c=draw(gen.coeff_spec(st)))
    return make()


def c_points(case, ctx):
    nmin, nmax, mmax = case['nmin'], case['nmax'], case['mmax']
    n = len(ref.index_list(nmin, nmax, mmax))
    kwargs = {}
    if case['source'] is not None:
        kwargs['source'] = case['source']
    extra = 0
    if nmin > 1 or case['give'] & 1:
        kwargs['nmin'] = nmin
    if mmax < nmax:
        kwargs['mmax'] = mmax
    if case['give'] & 2:
        kwargs['nmax'] = nmax
        if mmax == nmax:
            # coefficients beyond nmax must not contribute
            extra = sum(2*k + 1 for k in range(
                nmax + 1, nmax + 1 + case['extra']))
    c = gen.coeffs(case['c'], n + extra)
    t, p, r = case['theta'], case['phi'], list(case['radius'])
    if case['remote'] is not None:
        # near the sources at infinity or at the centre, far from the others
        k = case['extra'] % len(r)
        r[k] = ([0., 1e-3, 20.] if case['source'] == 'external' else
                [1e5, 4e5, 1e7])[case['remote']]
        ctx.label(f'radius={r[k]:g}')
    if case['kind'] == 'float':
        t, p, r = t[0], p[0], r[0]
    elif case['kind'] == 'array':
        t, p, r = np.array(t), np.array(p), np.array(r)
    lst = ref.index_list(nmin, nmax, mmax)
    ctx.nontrivial(any(v != 0 and lst[i][1] > 0
                       for i, v in enumerate(c[:n]))
                   and np.any((np.asarray(t) % 90.) != 0))
    ctx.label(f'source={case["source"]}', f'kind={case["kind"]}',
              'nmin>1' if nmin > 1 else 'nmin=1',
              'mmax<nmax' if mmax < nmax else 'mmax=nmax',
              'truncated' if extra else 'all coefficients',
              'pole' if np.any(np.isin(t, [0., 180.])) else 'no pole')
    judge(case, ctx, c, r, t, p, kwargs, nmin, nmax, mmax,
          case['source'] or 'internal')


# ---- degree inferred from the number of coefficients ----

def s_infer(st):
    @st.composite
    def make(draw):
        nmin = draw(st.integers(1, 9))
        nmax = nmin + draw(st.integers(0, 6))
        mmax = draw(st.one_of(
            st.integers(0, nmax), st.sampled_from(
                [min(nmax, max(0, nmin + k)) for k in (-2, -1, 0, 1)])))
        return dict(nmin=nmin, nmax=nmax, mmax=mmax,
                    theta=draw(gen.theta(st)), phi=draw(gen.phi(st)),
                    radius=draw(gen.radius(st)), salt=draw(gen.salt(st)),
                    source=draw(st.sampled_from(['internal', 'external'])))
    return make()


def c_infer(case, ctx):
    nmin, nmax, mmax = case['nmin'], case['nmax'], case['mmax']
    c = fill(case['salt'], len(ref.index_list(nmin, nmax, mmax)))
    ctx.nontrivial(nmin > 1 or mmax < nmax)
    ctx.label('mmax < nmin - 1' if mmax < nmin - 1 else
              'mmax = nmin - 1' if mmax == nmin - 1 else 'mmax >= nmin')
    kw = dict(source=case['source'], mmax=mmax)
    if nmin > 1:
        kw['nmin'] = nmin
    judge(case, ctx, c, case['radius'], case['theta'], case['phi'], kw,
          nmin, nmax, mmax, case['source'])


# ---- broadcasting ----

def s_broadcast(st):
    return st.fixed_dictionaries(dict(
        shapes=gen.broadcast_shapes(st, 4), nmax=st.integers(1, 5),
        low=st.sampled_from([0, 0, 0, 1, 3]), order=st.sampled_from(
            [None, None, None, 0, 1, 3]), c=gen.coeff_spec(st),
        whole=st.booleans(),
        salt=gen.salt(st), pole=st.sampled_from([0, 0, 1, 2, 3]),
        source=st.sampled_from(['internal', 'external']),
        r_surf=st.sampled_from([None, None, 6371.0, 6378.137, 3485.])))


def _positions(case, shr, sht, shp):
    s = case['salt']
    r = gen.spread(s + 1, shr, 5500., 9000.)
    t = gen.spread(s + 2, sht, 0.5, 179.5)
    p = gen.spread(s + 3, shp, -200., 380.)
    if case['pole'] & 1:
        t.reshape(-1)[0] = 0.
    if case['pole'] & 2:
        t.reshape(-1)[-1] = 180.
    return r, t, p


def _selection(case, shape):
    """Degrees and orders, and coefficients of the given leading shape."""
    nmin = 1 + case['low']
    nmax = case['nmax'] + case['low']
    mmax = nmax if case['order'] is None else min(case['order'], nmax)
    kw = dict(source=case['source'])
    if nmin > 1:
        kw['nmin'] = nmin
    if case['order'] is not None:
        kw['mmax'] = mmax
    n = len(ref.index_list(nmin, nmax, mmax))
    c = gen.coeffs(case['c'], *shape, n)
    if case['whole'] and case['order'] is None:
        # coefficients of higher degrees which nmax leaves out
        c = np.concatenate([c, np.full(c.shape[:-1] + (2*nmax + 3,), 7.)], -1)
        kw['nmax'] = nmax
    return c, kw, (nmin, nmax, mmax)


def c_broadcast(case, ctx):
    shr, sht, shp, shc = case['shapes']
    r, t, p = _positions(case, shr, sht, shp)
    c, kw, select = _selection(case, shc)
    r_ref = ref.R_REF
    if case['r_surf']:
        r_ref = case['r_surf']
        harness.chaosmagpy().basicConfig['params.r_surf'] = r_ref
    ctx.nontrivial(np.any((t % 90.) != 0))
    ctx.label(f'ndim={max(len(s) for s in case["shapes"])}',
              'different shapes' if len(set(map(tuple, case['shapes']))) > 1
              else 'same shapes', f'pole={case["pole"]}')
    judge(case, ctx, c, r, t, p, kw, *select, case['source'], r_ref=r_ref)


# ---- regular grids ----

def s_grid(st):
    @st.composite
    def make(draw):
        lead = [draw(st.integers(1, 3)) for _ in range(draw(
            st.sampled_from([0, 0, 1, 2])))]
        nt, npp = draw(st.integers(1, 4)), draw(st.integers(1, 5))
        one = st.integers(0, 3)
        sub = lambda sh: [1 if draw(one) == 0 else s for s in sh[draw(  # noqa
            st.integers(0, len(sh))):]]
        return dict(
            sht=sub(lead) + [nt], shp=sub(lead) + [npp],
            shr=sub(lead + [nt, npp]), shc=sub(lead + [nt, npp]),
            nmax=draw(st.integers(1, 5)), salt=draw(gen.salt(st)),
            low=draw(st.sampled_from([0, 0, 0, 1, 3])), order=draw(
                st.sampled_from([None, None, None, 0, 1, 3])),
            c=draw(gen.coeff_spec(st)), whole=draw(st.booleans()),
            pole=draw(st.sampled_from([0, 0, 1, 2, 3])),
            source=draw(st.sampled_from(['internal', 'external'])))
    return make()


def c_grid(case, ctx):
    r, t, p = _positions(case, case['shr'], case['sht'], case['shp'])
    c, kw, select = _selection(case, case['shc'])
    ctx.nontrivial(case['sht'][-1] * case['shp'][-1] > 1)
    ctx.label('time dimension' if len(case['sht']) > 1 else 'plain')
    judge(case, ctx, c, r, t, p, dict(kw, grid=True), *select,
          case['source'], tt=t[..., :, None], pp=p[..., None, :])


# ---- high degree ----

def s_high(st):
    return st.fixed_dictionaries(dict(
        nmax=st.integers(20, 90), theta=gen.theta(st), phi=gen.phi(st),
        radius=gen.f(st, 6371.2, 7000.), salt=gen.salt(st),
        nmin=st.sampled_from([1, 1, 15, 20]), mmax=st.sampled_from(
            [None, None, 0, 3, 14, 19])))


def c_high(case, ctx):
    nmin, nmax = case['nmin'], case['nmax']
    mmax = nmax if case['mmax'] is None else case['mmax']
    n = len(ref.index_list(nmin, nmax, mmax))
    c = fill(case['salt'], n)
    ctx.nontrivial()
    ctx.label('pole' if case['theta'] in (0., 180.) else 'no pole')
    kw = dict(nmin=nmin)
    if case['mmax'] is not None:
        kw['mmax'] = mmax
    judge(case, ctx, c, case['radius'], case['theta'], case['phi'], kw,
          nmin, nmax, mmax, 'internal')


# ---- laws of the field, without the reference matrix ----

def s_laws(st):
    return st.fixed_dictionaries(dict(
        nmax=st.integers(1, 10), theta=gen.theta(st, poles=False),
        phi=gen.phi(st), radius=gen.radius(st), s1=gen.salt(st),
        s2=gen.salt(st), a=gen.f(st, -5., 5.), b=gen.f(st, -5., 5.),
        source=st.sampled_from(['internal', 'external']),
        shift=gen.f(st, -180., 180.)))


def c_laws(case, ctx):
    synth = harness.chaosmagpy().model_utils.synth_values
    nmax, src = case['nmax'], case['source']
    n = nmax*(nmax + 2)
    c1, c2 = fill(case['s1'], n), fill(case['s2'], n)
    pos = case['radius'], case['theta'], case['phi']
    kw = dict(source=src)
    ctx.nontrivial(case['theta'] % 90 != 0)
    B1, B2 = (synth(c, *pos, **kw) for c in (c1, c2))
    mix = synth(case['a']*c1 + case['b']*c2, *pos, **kw)
    sc = ref.field_scale(10*(np.abs(c1) + np.abs(c2)) + 1e-300, pos[0], 1,
                         nmax, None, src)
    for k in range(3):
        agree(mix[k], case['a']*np.asarray(B1[k]) + case['b']
              * np.asarray(B2[k]), 1e-10, 'linearity', scale=sc)
    # a turn by 360 degrees changes nothing
    for d in (360., -360.):
        B = synth(c1, pos[0], pos[1], pos[2] + d, **kw)
        for k in range(3):
            agree(B[k], B1[k], 1e-10, 'periodic in longitude', scale=sc)
    # rotation of the coefficients about the axis = shift of longitude
    c3 = c1.copy()
    for i, (deg, m, kind) in enumerate(ref.index_list(1, nmax)):
        if kind == 'g' and m > 0:
            a = np.radians(m * case['shift'])
            g, h = c1[i], c1[i+1]
            c3[i] = g*np.cos(a) - h*np.sin(a)
            c3[i+1] = g*np.sin(a) + h*np.cos(a)
    B = synth(c3, pos[0], pos[1], pos[2] + case['shift'], **kw)
    for k in range(3):
        agree(B[k], B1[k], 1e-9, 'rotation about the axis', scale=sc)
    # potential by central differences
    h = 1e-4
    V = lambda dr, dt, dp: ref.potential(  # noqa
        c1, pos[0] + dr*ref.R_REF, pos[1] + np.degrees(dt),
        pos[2] + np.degrees(dp), 1, nmax, src)
    rho = pos[0] / ref.R_REF
    st_ = np.sin(np.radians(pos[1]))
    grad = [-(V(h, 0, 0) - V(-h, 0, 0)) / (2*h),
            -(V(0, h, 0) - V(0, -h, 0)) / (2*h) / rho,
            -(V(0, 0, h) - V(0, 0, -h)) / (2*h) / rho / st_]
    if h * nmax < 0.02 * st_ and 1. < rho < 2.:
        ctx.label('finite differences')
        for k in range(3):
            agree(B1[k], grad[k], 3e-5, 'minus the gradient', scale=sc)


def _large_positions(salt, n):
    return (gen.spread(salt + 1, (n,), 6000., 8000.),
            gen.spread(salt + 2, (n,), 0.5, 179.5),
            gen.spread(salt + 3, (n,), -180., 360.))


def _large_synth(source, time):
    def make(cp, salt, n):
        c = fill(salt, n, 15) if time else np.tile(fill(salt, 15), (n, 1))
        fn = cp.model_utils.synth_values
        if not time:
            return (lambda *a: fn(c[0], *a, source=source),
                    _large_positions(salt, n), 1e2)
        return (lambda x, *a: fn(x, *a, source=source, nmin=1),
                (c,) + _large_positions(salt, n), 1e2)
    return make


LARGE = {f'{s} {"series" if t else "points"}': _large_synth(s, t)
         for s in ('internal', 'external') for t in (False, True)}


FACETS = [
    Facet('points', s_points, c_points, 2400),
    Facet('infer', s_infer, c_infer, 1200),
    Facet('broadcast', s_broadcast, c_broadcast, 1600),
    Facet('grid', s_grid, c_grid, 1200),
    Facet('high', s_high, c_high, 160),
    Facet('laws', s_laws, c_laws, 800),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C01', 160),
]
