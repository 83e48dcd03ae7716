import numpy as np
import harness
from harness import Facet, agree, as_array, require
import gen
import history
import large
import ref

PROPERTY = 'C06'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Positions, azimuths and times over wide ranges, as floats, lists and '
        'arrays that broadcast. Non-trivial: a position off the axes and '
        'planes of the coordinate system, or an angle that has to be wrapped.')
ASSUMPTIONS = ['Wrapped angles are compared on the circle; the value 24 h is '
               'tolerated where the remainder rounds up to one day.']


def s_round(st):
    return st.fixed_dictionaries(dict(
        r=st.lists(st.one_of(gen.f(st, 1e-3, 1e5), gen.radius(st)),
                   min_size=1, max_size=4),
        t=gen.theta(st), p=gen.phi(st), salt=gen.salt(st),
        kind=st.sampled_from(['float', 'list', 'array', 'broadcast'])))


def c_round(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    n = len(case['r'])
    r = np.array(case['r'])
    t = gen.spread(case['salt'], (n,), 0., 180.)
    p = gen.spread(case['salt'] + 1, (n,), -400., 400.)
    t[0], p[0] = case['t'], case['p']
    if case['kind'] == 'float':
        args = float(r[0]), float(t[0]), float(p[0])
        r, t, p = r[0], t[0], p[0]
    elif case['kind'] == 'list':
        args = r.tolist(), t.tolist(), p.tolist()
    elif case['kind'] == 'broadcast':
        r, t = r[:, None], t[None, :]
        p = p[0]
        args = r, t, p
    else:
        args = r, t, p
    ctx.nontrivial(np.any(np.asarray(t) % 90 != 0))
    ctx.label(case['kind'])
    xyz = cu.spherical_to_cartesian(*args)
    require(len(xyz) == 3, 'three coordinates expected')
    up = ref.unit(t, p)[0]
    shape = np.broadcast_shapes(np.shape(r), up.shape[:-1])
    for i in range(3):
        agree(np.broadcast_to(as_array(xyz[i], 'xyz'), shape),
              np.broadcast_to(r*up[..., i], shape), 1e-12,
              'xyz'[i], scale=np.broadcast_to(r, shape))
    x = [np.broadcast_to(as_array(v, 'xyz'), shape) for v in xyz]
    if case['kind'] == 'float':
        x = [float(v) for v in x]
    r2, t2, p2 = cu.cartesian_to_spherical(*x)
    agree(r2, np.broadcast_to(r, shape), 1e-12, 'radius',
          scale=np.broadcast_to(r, shape))
    t2 = as_array(t2, 'theta', shape)
    p2 = as_array(p2, 'phi', shape)
    require(np.all((t2 >= 0) & (t2 <= 180)), 'colatitude outside [0, 180]')
    require(np.all((p2 >= -180) & (p2 <= 180)), 'longitude out of range')
    agree(t2, np.broadcast_to(t, shape), 1e-5 if np.any(
        (np.asarray(t) < 1e-3) | (np.asarray(t) > 179.999)) else 1e-9,
        'colatitude of the round trip')
    agree(ref.unit(t2, p2)[0],
          np.broadcast_to(up, shape + (3,)), 1e-11, 'round trip')
    off = np.broadcast_to(np.sin(np.radians(t)) > 1e-9, shape)
    d = np.broadcast_to(p, shape) - p2
    d = d - 360.*np.round(d/360.)
    agree(np.where(off, d, 0.), np.zeros(shape), 1e-9,
          'longitude of the round trip')


def s_cart(st):
    c = st.one_of(gen.f(st, -1e4, 1e4), st.sampled_from(
        [0., 1., -1., 6371.2, -6371.2, 1e-7]))
    return st.fixed_dictionaries(dict(xyz=st.lists(
        st.tuples(c, c, c), min_size=1, max_size=4)))


def c_cart(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    x, y, z = (np.array(v) for v in zip(*case['xyz']))
    r, t, p = (as_array(v, 'cartesian_to_spherical', x.shape)
               for v in cu.cartesian_to_spherical(x, y, z))
    ctx.nontrivial(np.any(x*y*z != 0))
    require(np.all((t >= 0) & (t <= 180)), 'colatitude outside [0, 180]')
    require(np.all((p >= -180) & (p <= 180)), 'longitude out of range')
    agree(r, [(a*a + b*b + c*c)**.5 for a, b, c in case['xyz']], 1e-13,
          'radius')
    back = cu.spherical_to_cartesian(r, t, p)
    for v, w, name in zip(back, (x, y, z), 'xyz'):
        agree(v, w, 1e-12, f'{name} of the round trip', scale=r + 1e-100)


def s_azimuth(st):
    a = st.one_of(gen.f(st, -1e4, 1e4), gen.f(st, -360., 360.),
                  st.sampled_from([180., -180., 540., -540., 0., 360., -360.,
                                   179.99999999, -179.99999999, 1e-13,
                                   -1e-13, 180.00000001]),
                  st.integers(-1000, 1000).map(float))
    return st.fixed_dictionaries(dict(
        phi=st.lists(a, min_size=1, max_size=6),
        kind=st.sampled_from(['float', 'array', '2d', 'int'])))


def c_azimuth(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    phi = np.array(case['phi'])
    arg = phi
    if case['kind'] == 'float':
        phi = phi[0]
        arg = float(phi)
    elif case['kind'] == '2d':
        arg = phi = phi[:, None] + np.array([0., 90.])
    elif case['kind'] == 'int':
        phi = np.round(phi)
        arg = phi.astype(int)
    ctx.nontrivial(np.any((phi > 180) | (phi <= -180)))
    ctx.label(case['kind'], 'boundary' if np.any(
        np.abs(phi) % 360 == 180) else 'no boundary')
    out = as_array(cu.center_azimuth(arg), 'center_azimuth', phi.shape)
    require(np.all((out > -180) & (out <= 180)),
            f'azimuth outside (-180, 180]: {out} for {phi}')
    d = (out - phi)/360.
    agree(d, np.round(d), 1e-12, 'turned by other than full circles',
          scale=1 + np.abs(d))
    agree(cu.center_azimuth(out), out, 1e-12, 'idempotent', scale=360.)


def s_local(st):
    return st.fixed_dictionaries(dict(
        time=st.lists(st.one_of(gen.f(st, -4e4, 4e4), gen.f(st, -1., 1.),
                                st.sampled_from([0., .5, -.25])),
                      min_size=1, max_size=4),
        phi=st.lists(gen.phi(st), min_size=1, max_size=4),
        kind=st.sampled_from(['float', 'array'])))


def c_local(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    t, p = np.array(case['time']), np.array(case['phi'])
    if case['kind'] == 'float':
        t, p = float(t[0]), float(p[0])
    else:
        t, p = t[:, None], p[None, :]
    out = as_array(cu.local_time(t, p), 'local_time',
                   np.broadcast_shapes(np.shape(t), np.shape(p)))
    ctx.nontrivial(np.any(np.asarray(t) % 1 != 0))
    require(np.all((out >= 0) & (out <= 24)), 'local time outside [0, 24)')
    # hours of the day in Greenwich, plus one hour per 15 degrees
    exp = (t - np.floor(t))*24. + np.asarray(p)/15.
    d = (out - exp)/24.
    agree(d, np.round(d), 1e-10, 'local time')


def _large(name, *limits):
    def make(cp, salt, n):
        return getattr(cp.coordinate_utils, name), tuple(
            gen.spread(salt + i, (n,), *x) for i, x in enumerate(limits)), 1e4
    return make


LARGE = dict(
    s2c=_large('spherical_to_cartesian', (1., 1e4), (0., 180.), (-400., 400.)),
    c2s=_large('cartesian_to_spherical', *3*[(-1e4, 1e4)]),
    azimuth=_large('center_azimuth', (-900., 900.)),
    local=_large('local_time', (-1e4, 1e4), (-180., 360.)))


FACETS = [
    Facet('round', s_round, c_round, 1600),
    Facet('cart', s_cart, c_cart, 1000),
    Facet('azimuth', s_azimuth, c_azimuth, 1600),
    Facet('local', s_local, c_local, 800),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C06', 60),
]
