import numpy as np
import harness
from harness import Facet, agree, as_array, fill, require
import gen
import history
import large
import ref

PROPERTY = 'C07'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Heights from -50 km (thorough and quick alike) to 50000 km, all '
        'colatitudes, four ellipsoids and arbitrary vector components. '
        'Non-trivial: neither at the equator nor within 0.01 degrees of a '
        'pole, and a flattened ellipsoid.')
ASSUMPTIONS = ['Within 0.01 degrees of the poles geodetic coordinates may be '
               'nan, as documented for geo_to_gg.']

ELL = [[6378.137, 6356.752], [6378.137, 6356.752], [6378.388, 6356.911946],
       [6371.2, 6371.2], [3396.19, 3376.20]]


def s_case(st):
    return st.fixed_dictionaries(dict(
        h=st.lists(st.one_of(gen.f(st, -50., 1000.), gen.f(st, 0., 50000.),
                             st.sampled_from([0., 400., 1e-9])),
                   min_size=1, max_size=4),
        beta=st.lists(gen.theta(st), min_size=1, max_size=4),
        ell=st.sampled_from(ELL), salt=gen.salt(st),
        zero=st.sampled_from(['none', 'none', 'none', 'first', 'second',
                              'both']),
        kind=st.sampled_from(['float', 'array', 'grid'])))


def setup(case):
    cp = harness.chaosmagpy()
    if case['ell'] != ELL[0]:
        cp.basicConfig['params.ellipsoid'] = np.array(case['ell'])
    a, b = cp.basicConfig['params.ellipsoid']
    n = min(len(case['h']), len(case['beta']))
    h, be = np.array(case['h'][:n]), np.array(case['beta'][:n])
    if case['kind'] == 'float':
        h, be = float(h[0]), float(be[0])
    elif case['kind'] == 'grid':
        h, be = np.array(case['h'])[:, None], np.array(case['beta'])[None]
    return cp.coordinate_utils, float(a), float(b), h, be


def directions(theta, beta):
    """Geodetic north and down in (radial, southward) components."""
    lat = np.radians(90. - np.asarray(beta))
    n = np.stack([-np.sin(lat), np.cos(lat)], -1)    # (axis, polar axis)
    d = np.stack([-np.cos(lat), -np.sin(lat)], -1)
    t = np.radians(theta)
    er = np.stack([np.sin(t), np.cos(t)], -1)
    et = np.stack([np.cos(t), -np.sin(t)], -1)
    dot = lambda u, v: np.sum(u*v, -1)  # noqa
    return dot(n, er), dot(n, et), dot(d, er), dot(d, et)


def components(case, shape):
    """Two components of a vector field, at times zero."""
    u, v = fill(case['salt'], *shape), fill(case['salt'] + 1, *shape)
    if case['zero'] in ('first', 'both'):
        u = np.zeros(shape)
    if case['zero'] in ('second', 'both'):
        v = np.zeros(shape)
    return u, v


def c_forward(case, ctx):
    cu, a, b, h, be = setup(case)
    rho, z = ref.geodetic_to_cylindrical(h, be, a, b)
    r, t = cu.gg_to_geo(h, be)
    shape = rho.shape
    ctx.nontrivial(a != b and np.any((np.abs(np.asarray(be) - 90) > .01)
                                     & (np.asarray(be) > .01)
                                     & (np.asarray(be) < 179.99)))
    ctx.label(case['kind'], f'flattening={1 - b/a:.4f}')
    r_e = np.hypot(rho, z)
    t_e = np.degrees(np.arctan2(rho, z))
    agree(r, r_e, 1e-12, 'radius', scale=r_e)
    agree(t, t_e, 1e-10, 'colatitude', scale=10.)
    # vector components
    X, Z = components(case, shape)
    out = cu.gg_to_geo(h, be, X, Z)
    require(len(out) == 4, 'gg_to_geo: four outputs expected')
    agree(out[0], as_array(r, 'r'), 1e-13, 'radius with components')
    agree(out[1], as_array(t, 't'), 1e-13, 'colatitude with components')
    nr, nt, dr, dt = directions(t_e, np.broadcast_to(be, shape))
    agree(out[2], nr*X + dr*Z, 1e-11, 'B_radius')
    agree(out[3], nt*X + dt*Z, 1e-11, 'B_theta')


def c_back(case, ctx):
    cu, a, b, h, be = setup(case)
    rho, z = ref.geodetic_to_cylindrical(h, be, a, b)
    shape = rho.shape
    r, t = np.hypot(rho, z), np.degrees(np.arctan2(rho, z))
    arg = (float(r), float(t)) if case['kind'] == 'float' else (r, t)
    h2, b2 = cu.geo_to_gg(*arg)
    be = np.broadcast_to(be, shape)
    h = np.broadcast_to(h, shape)
    ctx.nontrivial(a != b and np.any(
        (np.abs(be - 90) > .01) & (be > .01) & (be < 179.99)))
    ctx.label(case['kind'], f'flattening={1 - b/a:.4f}')
    h2 = as_array(h2, 'height', shape)
    b2 = as_array(b2, 'beta', shape)
    polar = (be < .01) | (be > 179.99)
    ok = ~(polar & (np.isnan(h2) | np.isnan(b2)))
    ctx.label('nan near pole' if not ok.all() else 'no nan')
    agree(h2[ok], h[ok], 1e-8, 'height', scale=10. + np.abs(h[ok]))
    agree(b2[ok], be[ok], 1e-9, 'geodetic colatitude', scale=10.)
    Br, Bt = components(case, shape)
    out = cu.geo_to_gg(*arg, Br, Bt)
    require(len(out) == 4, 'geo_to_gg: four outputs expected')
    nr, nt, dr, dt = directions(t, be)
    agree(as_array(out[2], 'X', shape)[ok], (nr*Br + nt*Bt)[ok], 1e-10, 'X')
    agree(as_array(out[3], 'Z', shape)[ok], (dr*Br + dt*Bt)[ok], 1e-10, 'Z')
    # there and back again, for the vector as well
    rr, tt, Br2, Bt2 = cu.gg_to_geo(*out)
    for name, v, w, tol in (('radius', rr, r, 1e-11),
                            ('theta', tt, t, 1e-10),
                            ('B_radius', Br2, Br, 1e-10),
                            ('B_theta', Bt2, Bt, 1e-10)):
        agree(as_array(v, name, shape)[ok], w[ok], tol,
              f'{name} of the round trip')


def s_base(st):
    return st.fixed_dictionaries(dict(
        theta=gen.theta(st), diff=gen.f(st, -1., 1.), salt=gen.salt(st),
        shapes=gen.broadcast_shapes(st, 2)))


def c_base(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    t, be = (np.asarray(x + .2*fill(case['salt'] + i, *shape)) for i, (
        x, shape) in enumerate(zip((case['theta'], case['theta']
                                    + case['diff']), case['shapes'])))
    shape = np.broadcast_shapes(t.shape, be.shape)
    g = [as_array(v, 'basevectors_gg', shape + (3,))
         for v in cu.basevectors_gg(t, be)]
    t, be = (np.broadcast_to(x, shape) for x in (t, be))
    nr, nt, dr, dt = directions(t, be)
    zero = np.zeros(shape)
    ctx.nontrivial(np.any(t != be))
    ctx.label('different shapes' if case['shapes'][0] != case['shapes'][1]
              else 'same shape')
    for v, e in zip(g, ([nr, nt, zero], [zero, zero, zero + 1.],
                        [dr, dt, zero])):
        agree(v, np.stack(e, -1), 1e-12, 'basevectors_gg')


def _large(name, h):
    def make(cp, salt, n):
        return getattr(cp.coordinate_utils, name), tuple(
            gen.spread(salt + i, (n,), *x) for i, x in enumerate(
                (h, (1., 179.), (-1., 1.), (-1., 1.)))), 1e4
    return make


LARGE = dict(forth=_large('gg_to_geo', (0., 1e3)),
             back=_large('geo_to_gg', (6300., 7e3)))


FACETS = [
    Facet('forward', s_case, c_forward, 1600),
    Facet('back', s_case, c_back, 1600),
    Facet('base', s_base, c_base, 400),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C07', 60),
]
