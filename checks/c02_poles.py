import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require, as_array
import gen
import history
import ref

PROPERTY = 'C02'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Positions at, next to and away from the poles in one array, with '
        'random coefficients; requests outside the documented bounds mixed '
        'with valid ones. Non-trivial: the coefficients contain order m = 1 '
        '(horizontal field at the pole), or the request is invalid in exactly '
        'one element or option.')
ASSUMPTIONS = ['The vector basis at a pole is the one documented in '
               'synth_values, fixed by the longitude given.']

EX = ['synth_values', 'design_gauss', 'synth_from_pp']


def field(which, c, nmax, r, t, p, source='internal'):
    mu = harness.chaosmagpy().model_utils
    if which == 'synth_values':
        return mu.synth_values(c, r, t, p, source=source)
    if which == 'design_gauss':
        A = mu.design_gauss(r, t, p, nmax, source=source)
        return tuple(np.asarray(a) @ c for a in A)
    return mu.synth_from_pp(np.array([0., 1.]), 1, c[None, None, :], 0.5,
                            r, t, p, source=source)


def s_limit(st):
    return st.fixed_dictionaries(dict(
        which=st.sampled_from(EX), nmax=st.integers(1, 12),
        source=st.sampled_from(['internal', 'external']),
        pole=st.sampled_from([0., 180.]), phi=gen.phi(st), phi2=gen.phi(st),
        radius=gen.radius(st), salt=gen.salt(st),
        eps=st.sampled_from([1e-5, 1e-7, 1e-8, 1e-10, 1e-13]),
        others=st.lists(gen.theta(st), max_size=4),
        nan=st.lists(st.integers(0, 6), max_size=2)))


def c_limit(case, ctx):
    nmax, src, pole = case['nmax'], case['source'], case['pole']
    c = fill(case['salt'], nmax*(nmax + 2))
    r, p = case['radius'], case['phi']
    ctx.nontrivial()
    ctx.label(case['which'], f'eps={case["eps"]}',
              f'{len(case["others"])} others')
    # all positions in one call, the pole among them
    near = case['eps'] if pole == 0. else 180. - case['eps']
    t = np.array([pole, near] + case['others'])
    if case.get('nan'):         # unknown colatitudes among them
        holes = np.zeros(t.size + len(case['nan']), bool)
        for i in case['nan']:
            holes[min(i, holes.size - 1)] = True
        full = np.full(holes.size, np.nan)
        full[np.flatnonzero(~holes)[:t.size]] = t
        B = [as_array(b, case['which'], full.shape) for b in
             field(case['which'], c, nmax, r, full, np.full(full.shape, p),
                   src)]
        ctx.label('unknown colatitude')
        for b in B:
            require(np.all(np.isnan(b[np.isnan(full)])),
                    f'{case["which"]}: value for an unknown colatitude')
        B = [b[np.flatnonzero(~holes)[:t.size]] for b in B]
    else:
        B = [as_array(b, case['which'], t.shape)
             for b in field(case['which'], c, nmax, r, t,
                            np.full(t.shape, p), src)]
    sc = nmax * ref.field_scale(c, r, 1, nmax, None, src)
    for b in B:
        require(np.all(np.isfinite(b)), f'{case["which"]}: not finite')
        # continuous in the limit
        agree(b[1], b[0], 1e-9 + 0.1*case['eps'], 'limit at the pole',
              scale=sc)
    # the pole changes nothing at the other positions
    for i, th in enumerate(t):
        one = field(case['which'], c, nmax, r, th, p, src)
        for a, b in zip(one, B):
            agree(a, b[i], 1e-12, 'position evaluated alone', scale=sc)
    # one vector, whatever longitude is used for the basis at the pole
    v = []
    for lon in (p, case['phi2']):
        b = [float(as_array(x, 'pole', ())) for x in
             field(case['which'], c, nmax, r, pole, lon, src)]
        ct = 1. if pole == 0. else -1.
        s, k = np.sin(np.radians(lon)), np.cos(np.radians(lon))
        v.append(np.array([ct*k*b[1] - s*b[2], ct*s*b[1] + k*b[2], ct*b[0]]))
    agree(v[1], v[0], 1e-10, 'vector at the pole', scale=sc)


def s_poles(st):
    return st.fixed_dictionaries(dict(
        which=st.sampled_from(EX), nmax=st.integers(1, 8),
        source=st.sampled_from(['internal', 'external']),
        north=st.lists(st.booleans(), min_size=1, max_size=6),
        alike=st.sampled_from([None, None, True, False]),
        shape=st.sampled_from(['1d', '1d', '2d', 'one longitude']),
        salt=gen.salt(st)))


def c_poles(case, ctx):
    # arrays of nothing but poles
    nmax, src, s = case['nmax'], case['source'], case['salt']
    c = fill(s, nmax*(nmax + 2))
    north = np.array(case['north'])
    if case['alike'] is not None:
        north[:] = case['alike']
    p = gen.spread(s + 1, north.shape, -180., 360.)
    if case['shape'] == '2d':
        north, p = north[:, None], p[None, :]
    elif case['shape'] == 'one longitude':
        p = p[0]
    r = gen.spread(s + 2, np.broadcast(north, p).shape, 6000., 8000.)
    B, E = (field(case['which'], c, nmax, r, t, p, src) for t in (
        np.where(north, 0., 180.), np.where(north, 1e-9, 180. - 1e-9)))
    ctx.nontrivial(north.size > 1)
    ctx.label(case['which'], case['shape'], 'north' if np.all(north) else
              'south' if not np.any(north) else 'both')
    sc = nmax * ref.field_scale(c, r, 1, nmax, None, src)
    for b, e in zip(B, E):
        b = as_array(b, case['which'], r.shape)
        require(np.all(np.isfinite(b)), f'{case["which"]}: not finite')
        agree(b, e, 1e-8, 'poles only', scale=sc)


def s_bounds(st):
    bad = st.one_of(gen.f(st, -400., -1e-9), gen.f(st, 180.0000001, 600.),
                    st.sampled_from([-1e-12, -1., 181., 200., 360., -90.]))
    return st.fixed_dictionaries(dict(
        which=st.sampled_from(EX), nmax=st.integers(1, 4), bad=bad,
        good=st.lists(gen.theta(st), max_size=4), at=st.integers(0, 4),
        shape=st.sampled_from(['1d', 'column', 'grid']), salt=gen.salt(st),
        many=st.sampled_from([0]*9 + [1500, 70000]),
        nan=st.one_of(st.none(), st.integers(0, 5))))


def c_bounds(case, ctx):
    mu = harness.chaosmagpy().model_utils
    good = list(case['good'])
    ctx.label(case['which'], case['shape'], 'pole among the valid' if any(
        g in (0., 180.) for g in good) else 'no pole')
    ctx.nontrivial(len(good) > 0)
    t = list(good)
    t.insert(min(case['at'], len(t)), case['bad'])
    if case.get('many') and case['shape'] != 'grid':    # a bad one of many
        t = np.insert(gen.spread(case['salt'], (case['many'],), 1., 179.),
                      case['salt'] % case['many'], t).tolist()
        case['nmax'] = 1
    if case.get('nan') is not None:     # unknown colatitudes hide nothing
        t.insert(min(case['nan'], len(t)), np.nan)
        ctx.label('unknown colatitude')
    t = np.array(t)
    nmax = case['nmax']
    c = fill(case['salt'], nmax*(nmax + 2))
    what = f'{case["which"]} with colatitude {case["bad"]}'
    if case['shape'] == 'grid' and case['which'] != 'design_gauss':
        phi = np.array([0., 100.])
        if case['which'] == 'synth_values':
            rejects(what, mu.synth_values, c, 6371.2, t, phi, grid=True,
                    exc=ValueError)
        else:
            rejects(what, mu.synth_from_pp, np.array([0., 1.]), 1,
                    c[None, None, :], 0.5, 6371.2, t, phi, grid=True,
                    exc=ValueError)
        return
    if case['shape'] == 'column':
        t = t[:, None]
    rejects(what, field, case['which'], c, nmax, 6371.2, t, 10.,
            exc=ValueError)


def s_options(st):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(['source', 'nmin0', 'nmin>nmax', 'shapes',
                              'mmax>nmax', 'mmax<0', 'nmax0']),
        nmax=st.integers(1, 5), salt=gen.salt(st), word=st.sampled_from(
            ['intern', 'Internal', 'ext', '', 'both', 'crust']),
        n=st.integers(2, 5), by=st.integers(1, 4)))


def c_options(case, ctx):
    mu = harness.chaosmagpy().model_utils
    nmax = case['nmax']
    c = fill(case['salt'], nmax*(nmax + 2))
    pos = 6371.2, 50., 20.
    ctx.label(case['kind'])
    ctx.nontrivial()
    k = case['kind']
    if k == 'source':
        w = case['word']
        rejects('synth_values source', mu.synth_values, c, *pos, source=w)
        rejects('design_gauss source', mu.design_gauss, *pos, nmax, source=w)
        rejects('power_spectrum source', mu.power_spectrum, c, source=w)
    elif k == 'nmin0':
        rejects('synth_values nmin=0', mu.synth_values, c, *pos, nmin=0)
        rejects('design_gauss nmin=0', mu.design_gauss, *pos, nmax, nmin=0)
    elif k == 'nmin>nmax':
        rejects('synth_values nmin>nmax', mu.synth_values, c, *pos,
                nmin=nmax + case['by'], nmax=nmax)
        rejects('design_gauss nmin>nmax', mu.design_gauss, *pos, nmax,
                nmin=nmax + case['by'])
    elif k == 'shapes':
        a, b = np.full(case['n'], 40.), np.full(case['n'] + 1, 10.)
        rejects('synth_values shapes', mu.synth_values, c, 6371.2, a, b)
        rejects('synth_values shapes', mu.synth_values,
                np.tile(c, (case['n'] + 1, 1)), 6371.2, a, 10.)
        rejects('design_gauss shapes', mu.design_gauss, 6371.2, a, b, nmax)
    elif k == 'mmax>nmax':
        rejects('design_gauss mmax>nmax', mu.design_gauss, *pos, nmax,
                mmax=nmax + case['by'])
    elif k == 'mmax<0':
        rejects('design_gauss mmax<0', mu.design_gauss, *pos, nmax,
                mmax=-case['by'])
    else:
        rejects('design_gauss nmax=0', mu.design_gauss, *pos,
                1 - case['by'])


FACETS = [
    Facet('limit', s_limit, c_limit, 1200),
    Facet('poles', s_poles, c_poles, 600),
    Facet('bounds', s_bounds, c_bounds, 1200),
    Facet('options', s_options, c_options, 240),
    history.facet('C02', 60),
]
