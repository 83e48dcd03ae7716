import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require
import gen
import history
import large
import ref

PROPERTY = 'C08'
SCALE = 5         # times the cases of each facet in quick runs
RULE = ('Times 1902-2098, positions, dipoles (all documented forms, the '
        'configured one, time series) and tangential vectors are drawn. '
        'Non-trivial: the dipole is tilted and the position is not within '
        '1 degree of a pole of either system.')
ASSUMPTIONS = ['Dipoles tilted by 0.5 to 60 degrees, or southern ones; the '
               'MAG system is undefined for an axial dipole.',
               'Vectors are not transformed at the poles of either system.']


def s_dipole(st):
    return st.one_of(
        st.just(dict(form='default')),
        st.fixed_dictionaries(dict(
            form=st.sampled_from(['array', 'tuple3', 'tuple2', 'list2', 'list3',
                                  'config']),
            tilt=st.one_of(gen.f(st, .5, 60.), gen.f(st, 100., 179.)),
            lon=gen.f(st, -180., 180.), size=st.one_of(
                gen.f(st, .5, 6e4), st.sampled_from([1., 1. + 2e-5, .9999, 1e-6,
                                                     1e9])))))


def decode(d):
    """Argument for the functions, and the unit vector it stands for."""
    cp = harness.chaosmagpy()
    if d['form'] == 'default':
        return None, ref.dipole_axis(-29442.0, -1501.0, 4797.1)
    t, p = np.radians(d['tilt']), np.radians(d['lon'])
    v = np.array([np.sin(t)*np.cos(p), np.sin(t)*np.sin(p), np.cos(t)])
    g = -d['size']*np.array([v[2], v[0], v[1]])
    if d['form'] == 'array':
        return g, v
    if d['form'] == 'tuple3':
        return tuple(g), v
    if d['form'] == 'list3':
        return list(g), v
    if d['form'] == 'tuple2':
        return (d['tilt'], d['lon']), v
    if d['form'] == 'list2':
        return [d['tilt'], d['lon']], v
    cp.basicConfig['params.dipole'] = g
    return None, v


TIME = (-35000., 35000.)


def bases(cu, reference, time, dip):
    kw = {} if dip is None else dict(dipole=dip)
    if reference == 'gsm':
        return cu.basevectors_gsm(time, **kw)
    if reference == 'sm':
        return cu.basevectors_sm(time, **kw)
    return cu.basevectors_mag(**kw)


def own_bases(reference, sun, axis):
    """From the definitions of the systems."""
    axis = np.broadcast_to(axis, sun.shape) if reference != 'mag' else axis
    u = lambda v: v / np.sqrt(np.sum(v*v, -1, keepdims=True))  # noqa
    if reference == 'gsm':
        e1 = sun
        e3 = u(axis - np.sum(axis*sun, -1, keepdims=True)*sun)
        e2 = np.cross(e3, e1)
    elif reference == 'sm':
        e3 = axis
        e1 = u(sun - np.sum(axis*sun, -1, keepdims=True)*axis)
        e2 = np.cross(e3, e1)
    else:
        e3 = axis
        e1 = u(np.sum(axis*[0, 0, 1.], -1, keepdims=True)*axis
               - np.array([0, 0, 1.]))
        e2 = np.cross(e3, e1)
    return e1, e2, e3


def s_base(st):
    return st.fixed_dictionaries(dict(
        ref=st.sampled_from(['gsm', 'sm', 'mag']), dip=s_dipole(st),
        time=st.lists(gen.f(st, *TIME), min_size=1, max_size=4),
        kind=st.sampled_from(['float', '0d', '1d', '2d']),
        series=st.booleans(), salt=gen.salt(st)))


def c_base(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    dip, axis = decode(case['dip'])
    time = np.array(case['time'])
    time = dict(float=float(time[0]), **{
        '0d': time[0], '1d': time, '2d': time[:, None] + [0., 100.5]})[
            case['kind']]
    if case['series'] and case['kind'] == '1d':
        # one dipole per point in time
        n = time.size
        g = np.stack([-3e4 + 5e3*fill(case['salt'], n),
                      4e3*fill(case['salt'] + 1, n) - 5e3,
                      4e3*fill(case['salt'] + 2, n) + 5e3], -1)
        axis = ref.dipole_axis(*g.T)
        dip = g if case['salt'] % 2 else tuple(g.T)
        ctx.label('dipole series')
    ctx.label(case['ref'], case['dip']['form'], case['kind'])
    ctx.nontrivial()
    out = [as_array(v, f'base vectors of {case["ref"]}')
           for v in bases(cu, case['ref'], time, dip)]
    sun = ref.unit(*cu.sun_position(time))[0]
    exp = own_bases(case['ref'], sun, axis)
    for i in range(3):
        agree(out[i], exp[i], 1e-9, f'{case["ref"]} base vector {i + 1}')
    M = np.stack(out, -2)
    agree(M @ np.swapaxes(M, -1, -2),
          np.broadcast_to(np.eye(3), M.shape), 1e-12, 'orthonormal')
    agree(np.linalg.det(M), np.ones(M.shape[:-2]), 1e-12, 'right-handed')
    agree(cu.dipole_to_vec(dip), axis, 1e-12, 'dipole_to_vec')


def s_points(st):
    return st.fixed_dictionaries(dict(
        ref=st.sampled_from(['gsm', 'sm', 'mag', 'GSM', 'SM', 'Mag']),
        dip=s_dipole(st),
        time=st.lists(gen.f(st, *TIME), min_size=1, max_size=3),
        theta=st.lists(gen.theta(st, poles=False), min_size=1, max_size=3),
        phi=st.lists(gen.phi(st), min_size=1, max_size=3),
        shape=st.sampled_from(['float', 'same', 'outer', 'one time']),
        inverse=st.booleans(), salt=gen.salt(st)))


def positions(case):
    t, p, tm = (np.array(case[k]) for k in ('theta', 'phi', 'time'))
    s = case['shape']
    if s == 'float':
        return float(t[0]), float(p[0]), float(tm[0])
    if s == 'same':
        n = min(t.size, p.size, tm.size)
        return t[:n], p[:n], tm[:n]
    if s == 'outer':
        return t[:, None], p[None, :], tm[:, None, None]
    return t[:, None], p[None, :], float(tm[0])


def c_points(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    dip, axis = decode(case['dip'])
    t, p, tm = positions(case)
    rf = case['ref'].lower()
    kw = dict(reference=case['ref'], inverse=case['inverse'])
    if dip is not None:
        kw['dipole'] = dip
    if rf != 'mag':
        kw['time'] = tm
    th, ph = cu.transform_points(t, p, **kw)
    sun = ref.unit(*cu.sun_position(tm))[0]
    E = np.stack(np.broadcast_arrays(*own_bases(rf, sun, axis)), -2)
    v = ref.unit(t, p)[0]
    if case['inverse']:
        w = np.einsum('...ji,...j->...i', E, v)
    else:
        w = np.einsum('...ij,...j->...i', E, v)
    shape = w.shape[:-1]
    th = as_array(th, 'theta', shape)
    ph = as_array(ph, 'phi', shape)
    ctx.nontrivial(np.all((th > 1) & (th < 179)))
    ctx.label(rf, case['shape'], f'inverse={case["inverse"]}')
    require(np.all((th >= 0) & (th <= 180) & (ph >= -180) & (ph <= 180)),
            'coordinates out of range')
    agree(ref.unit(th, ph)[0], w, 1e-9, f'direction in {rf}')
    # the inverse brings the points back
    kw['inverse'] = not case['inverse']
    t2, p2 = cu.transform_points(th, ph, **kw)
    agree(ref.unit(t2, p2)[0], np.broadcast_to(v, shape + (3,)), 1e-9,
          'there and back')


def c_vectors(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    dip, axis = decode(case['dip'])
    t, p, tm = positions(case)
    rf = case['ref'].lower()
    kw = dict(reference=case['ref'], inverse=case['inverse'])
    if dip is not None:
        kw['dipole'] = dip
    if rf != 'mag':
        kw['time'] = tm
    sun = ref.unit(*cu.sun_position(tm))[0]
    E = np.stack(np.broadcast_arrays(*own_bases(rf, sun, axis)), -2)
    if case['inverse']:
        E = np.swapaxes(E, -1, -2)
    up, south, east = ref.unit(t, p)
    w = np.einsum('...ij,...j->...i', E, up)
    shape = w.shape[:-1]
    if np.any(np.abs(w[..., 2]) > np.cos(np.radians(.01))):
        return
    ctx.nontrivial()
    ctx.label(rf, case['shape'], f'inverse={case["inverse"]}')
    Bt, Bp = fill(case['salt'], *shape), fill(case['salt'] + 1, *shape)
    if case['salt'] % 5 == 1:
        Bt = Bt*0.
        ctx.label('east or west')
    elif case['salt'] % 5 == 2:
        Bp = Bp*0.
        ctx.label('north or south')
    elif case['salt'] % 5 == 3:
        Bt = np.where(Bp > 0, Bt, 0.)
        Bp = np.where(Bp > 0, 0., Bp)
    th, ph, Bt2, Bp2 = cu.transform_vectors(t, p, Bt, Bp, **kw)
    th, ph, Bt2, Bp2 = (as_array(x, 'transform_vectors', shape)
                        for x in (th, ph, Bt2, Bp2))
    u2, s2, e2 = ref.unit(th, ph)
    agree(u2, w, 1e-9, f'direction in {rf}')
    vec = Bt[..., None]*south + Bp[..., None]*east
    vec2 = Bt2[..., None]*s2 + Bp2[..., None]*e2
    agree(vec2, np.einsum('...ij,...j->...i', E, vec), 1e-8,
          f'vector in {rf}')
    agree(Bt2**2 + Bp2**2, Bt**2 + Bp**2, 1e-9, 'length of the vector')
    kw['inverse'] = not case['inverse']
    t3, p3, Bt3, Bp3 = cu.transform_vectors(th, ph, Bt2, Bp2, **kw)
    agree(Bt3, Bt, 1e-7, 'B_theta there and back')
    agree(Bp3, Bp, 1e-7, 'B_phi there and back')


def rotation(salt):
    """A proper rotation from a salt (unit quaternion)."""
    q = fill(salt, 4)
    q = q/np.linalg.norm(q)
    a, b, c, d = q
    return np.array([
        [a*a+b*b-c*c-d*d, 2*(b*c-a*d), 2*(b*d+a*c)],
        [2*(b*c+a*d), a*a-b*b+c*c-d*d, 2*(c*d-a*b)],
        [2*(b*d-a*c), 2*(c*d+a*b), a*a-b*b-c*c+d*d]])


def s_general(st):
    return st.fixed_dictionaries(dict(
        rot=gen.salt(st), salt=gen.salt(st), inverse=st.sampled_from(
            [None, True, False]),
        theta=st.lists(gen.theta(st, poles=False), min_size=1, max_size=4),
        phi=gen.phi(st), series=st.booleans()))


def c_general(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    t = np.array(case['theta'])
    p = np.full(t.shape, case['phi'])
    E = rotation(case['rot'])
    if case['series']:
        E = np.stack([rotation(case['rot'] + i) for i in range(t.size)])
    b = [E[..., i, :] for i in range(3)]
    F = np.swapaxes(E, -1, -2) if case['inverse'] else E
    kw = {} if case['inverse'] is None else dict(inverse=case['inverse'])
    up, south, east = ref.unit(t, p)
    w = np.einsum('...ij,...j->...i', F, up)
    th, ph = cu.geo_to_base(t, p, *b, **kw)
    agree(ref.unit(as_array(th, 'th', t.shape), ph)[0], w, 1e-9,
          'geo_to_base')
    ctx.nontrivial()
    ctx.label(f'inverse={case["inverse"]}')
    if np.any(np.abs(w[..., 2]) > np.cos(np.radians(.01))):
        return
    th, ph, R = cu.matrix_geo_to_base(t, p, *b, **kw)
    R = as_array(R, 'matrix_geo_to_base', t.shape + (3, 3))
    new = np.stack(ref.unit(th, ph), -2)
    old = np.stack((up, south, east), -1)
    agree(R, new @ F @ old, 1e-8, 'matrix_geo_to_base')
    agree(np.stack([as_array(v, 'use') for v in cu.basevectors_use(t, p)],
                   -1), old, 1e-12, 'basevectors_use')


def s_reject(st):
    return st.fixed_dictionaries(dict(
        word=st.sampled_from(['geo', 'gse', '', 'magn', 'None', 'gsmm', 'fac']),
        pole=st.sampled_from([0., 180.]), theta=gen.theta(st, poles=False),
        n=st.integers(0, 3), epoch=st.sampled_from(['2020', '2005', '1900',
                                                    '', 'igrf', '20155',
                                                    '2010.5', '201'])))


def c_reject(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    ctx.nontrivial()
    w = None if case['word'] == 'None' else case['word']
    rejects('transform_points', cu.transform_points, 40., 20., time=0.,
            reference=w, exc=ValueError)
    rejects('transform_vectors', cu.transform_vectors, 40., 20., 1., 1.,
            time=0., reference=w, exc=ValueError)
    for w in ('gsm', 'sm', 'GSM'):
        rejects('missing time', cu.transform_points, 40., 20., reference=w)
        rejects('missing time', cu.transform_vectors, 40., 20., 1., 1.,
                reference=w)
    rejects('no reference', cu.transform_points, 40., 20.)
    rejects('no reference', cu.transform_vectors, 40., 20., 1., 1.)
    t = [case['theta']]*case['n']
    t.insert(case['n']//2, case['pole'])
    rejects('basevectors_use at the pole', cu.basevectors_use, np.array(t),
            10., exc=ValueError)
    rejects('igrf_dipole', cu.igrf_dipole, case['epoch'], exc=ValueError)
    rejects('dipole_to_vec of 4', cu.dipole_to_vec, (1., 2., 3., 4.),
            exc=ValueError)
    agree(cu.igrf_dipole(), ref.dipole_axis(-29442.0, -1501.0, 4797.1),
          1e-12, 'IGRF 2015')
    agree(cu.igrf_dipole('2010'), ref.unit(11.32, 289.59)[0], 1e-12,
          'IGRF 2010')


def _large_points(name, inverse):
    def make(cp, salt, n):
        fn = cp.coordinate_utils.transform_points
        return (lambda t, p, x: fn(t, p, x, reference=name, inverse=inverse),
                (gen.spread(salt, (n,), 1., 179.),
                 gen.spread(salt + 1, (n,), -180., 180.),
                 gen.spread(salt + 2, (n,), -9e3, 9e3)), 1e5)
    return make


def _large_vectors(name, inverse):
    def make(cp, salt, n):
        fn = cp.coordinate_utils.transform_vectors
        return (lambda t, p, a, b, x: fn(t, p, a, b, x, reference=name,
                                         inverse=inverse),
                tuple(gen.spread(salt + i, (n,), *x) for i, x in enumerate(
                    ((1., 179.), (-180., 180.), (-1., 1.), (-1., 1.),
                     (-9e3, 9e3)))), 1e7)
    return make


def _large_base(name):
    def make(cp, salt, n):
        return (getattr(cp.coordinate_utils, f'basevectors_{name}'),
                (gen.spread(salt, (n,), -9e3, 9e3),), 10.)
    return make


LARGE = {f'{k} {x} {i}': f(x, i) for x in ('gsm', 'sm', 'mag')
         for i in (False, True)
         for k, f in (('points', _large_points), ('vectors', _large_vectors))}
LARGE.update({x: _large_base(x) for x in ('gsm', 'sm')})


FACETS = [
    Facet('base', s_base, c_base, 1200),
    Facet('points', s_points, c_points, 1200),
    Facet('vectors', s_points, c_vectors, 1200),
    Facet('general', s_general, c_general, 800),
    Facet('reject', s_reject, c_reject, 120),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C08', 96),
]
