"""The worlds of lib/history.py: calls with a few options for every argument.

WORLDS[name] = dict(of=[properties], setup=function, calls={call: (function,
{argument: number of options})}). Calls that start with ! change the
configuration, a file or the object, and are carried out in the pristine
process, too. A world with views=True gives out arrays of the model itself.
"""
import os
import numpy as np
import harness
from harness import fill
import gen

WORLDS = {}
V, S = 7, 4       # variants and shapes of Env.vals


def world(name, of, calls, setup=None, **kw):
    WORLDS[name] = dict(of=of, calls=calls, **kw)
    if setup:
        WORLDS[name]['setup'] = setup


def args_of(nargs, **more):
    """Options of calls with several arrays of the same shape."""
    return dict({f'v{i}': V for i in range(nargs)}, shape=S, **more)


def arrays(env, kw, *ranges):
    return [env.vals(f'{i}', kw[f'v{i}'], kw['shape'], *r)
            for i, r in enumerate(ranges)]


R_, TH, PH = (6000., 8000.), (1., 179.), (-180., 360.)
T_, B_ = (-3000., 9000.), (-900., 900.)


def config(key, options):
    def fn(cp, env, obj, i):
        x = options[i]
        cp.basicConfig[key] = np.array(x) if isinstance(x, tuple) else x
    return fn, dict(i=len(options))


R_SURF = config('params.r_surf', [6371.2, 6371., 3485., 7000.])
DIPOLE = config('params.dipole', [(-29442.0, -1501.0, 4797.1),
                                  (-29442.0, -1501.0, 4800.),
                                  (-30000., 100., -5000.),
                                  (30000., -100., 5000.)])
ELLIPSOID = config('params.ellipsoid', [(6378.137, 6356.752), (6378., 6356.),
                                        (6371.2, 6371.1), (6400., 6000.)])


def only(kw, *names):
    return {k: kw[k] for k in names if kw.get(k) is not None}


def opt(kw, key, options):
    return options[kw[key]]


# ------------------------------------------------------------ model_utils

def w_synth(cp, env, obj, **kw):
    r, t, p = arrays(env, kw, R_, TH, PH)
    c = env.vals('c', kw['c'], 0, *B_)
    c = np.concatenate((c, c[::-1], c[:3]))[:opt(kw, 'n', [15, 8, 3])]
    if kw['many'] and r.ndim == 1:
        c = np.stack([c*(i + 1) for i in range(r.size)])
    c = env.own('coeffs', c)
    more = {k: v for k, v in dict(
        nmax=[None, 1, 2, 3][kw['nmax']], nmin=[None, 1, 2][kw['nmin']],
        mmax=[None, 0, 1, 2][kw['mmax']],
        source=[None, 'internal', 'external'][kw['source']],
        grid=[None, False, True][kw['grid']]).items() if v is not None}
    if kw['grid'] == 2:
        r, t, p = (float(np.ravel(r)[0]), np.ravel(t), np.ravel(p))
        c = c[0] if c.ndim > 1 else c
    return cp.model_utils.synth_values(c, r, t, p, **more)


def w_poles(cp, env, obj, v0, shape, n, pole, at, phi, source, fn):
    t = env.vals('t', v0, shape, *TH)
    if pole:
        t = np.array(t)
        t.flat[at % t.size] = [0., 0., 180., -1., np.nan][pole]
    t = env.own('theta', t)
    n = [1, 2, 3][n]
    src = ['internal', 'external'][source]
    p = [10., 200., -170.][phi]
    if fn == 2:
        return cp.model_utils.design_gauss(6400., t, p, n, source=src)
    c = fill(env.salt, n*(n + 2))
    if fn == 1:
        return cp.model_utils.synth_from_pp(
            np.array([0., 1.]), 1, c[None, None], .5, 6400., t, p, source=src)
    return cp.model_utils.synth_values(c, 6400., t, p, source=src)


world('synthesis', ['C01'], {
    'synth_values': (w_synth, args_of(3, c=V, n=3, nmax=4, nmin=3, mmax=4,
                                      source=3, grid=3, many=2)),
    '!r_surf': R_SURF})

world('poles', ['C02'], {
    'field': (w_poles, dict(v0=V, shape=S, n=3, pole=5, at=6, phi=3,
                            source=2, fn=3)),
    '!r_surf': R_SURF})


def w_design(cp, env, obj, **kw):
    r, t, p = arrays(env, kw, R_, TH, PH)
    more = {k: v for k, v in dict(
        nmin=[None, 1, 2][kw['nmin']], mmax=[None, 0, 1][kw['mmax']],
        source=[None, 'internal', 'external'][kw['source']]).items()
        if v is not None}
    return cp.model_utils.design_gauss(r, t, p, [1, 2, 3, 4][kw['nmax']],
                                       **more)


def w_legendre(cp, env, obj, v0, shape, n):
    return cp.model_utils.legendre_poly([1, 2, 3, 7][n],
                                        env.vals('0', v0, shape, *TH))


BREAKS = [np.array([0., 3., 4., 9.]), np.array([0., 2., 4., 9.]),
          np.array([0., 3., 4., 7., 9.]), np.array([0., 9.]),
          np.array([0., 3., 4., 9.0001])]


def knots_of(env, breaks, order, key='knots'):
    b = BREAKS[breaks]
    return env.own(key, np.concatenate(
        ([b[0]]*(order - 1), b, [b[-1]]*(order - 1))))


def w_tdesign(cp, env, obj, **kw):
    r, t, p = arrays(env, dict(kw, shape=0), R_, TH, PH)
    time = env.vals('time', kw['time'], 0, 0., 9.)
    k = [1, 2, 4][kw['order']]
    return cp.model_utils.design_matrix(
        knots_of(env, kw['breaks'], k), k, [1, 2, 3][kw['nt']], time, r, t, p,
        **only(dict(n_static=[None, 2, 3][kw['ns']],
                    source=[None, 'internal', 'external'][kw['source']]),
               'n_static', 'source'))


world('design', ['C03'], {
    'design_gauss': (w_design, args_of(3, nmax=4, nmin=3, mmax=3, source=3)),
    'legendre_poly': (w_legendre, dict(v0=V, shape=S, n=4)),
    'design_matrix': (w_tdesign, dict(v0=V, v1=V, v2=V, time=V, breaks=5,
                                      order=3, nt=3, ns=3, source=3)),
    '!r_surf': R_SURF})


def w_colloc(cp, env, obj, breaks, order, v, deriv):
    k = [1, 2, 3, 4, 6][order]
    return cp.model_utils.colloc_matrix(
        env.vals('x', v, 0, -1., 10.), knots_of(env, breaks, k), k,
        deriv=[None, 0, 1, 2][deriv])


def w_augment(cp, env, obj, breaks, order):
    return cp.model_utils.augment_breaks(env.own('b', BREAKS[breaks]),
                                         order + 1)


def w_from_bspline(cp, env, obj, breaks, order, c):
    k = [1, 2, 3, 4][order]
    knots = knots_of(env, breaks, k)
    x = env.own('c', fill(env.salt + c, knots.size - k, 3))
    return cp.model_utils.pp_from_bspline(x, knots, k)


def w_frompp(cp, env, obj, **kw):
    t, r, th, p = arrays(env, kw, (-.5, 9.5), R_, TH, PH)
    b = env.own('b', BREAKS[kw['breaks']])
    k = [1, 2, 4][kw['order']]
    c = env.own('c', fill(env.salt + kw['c'], k, b.size - 1, 8))
    more = {x: v for x, v in dict(
        nmax=[None, 1, 2][kw['nmax']], deriv=[None, 0, 1, 2][kw['deriv']],
        source=[None, 'internal', 'external'][kw['source']]).items()
        if v is not None}
    return cp.model_utils.synth_from_pp(b, k, c, t, r, th, p, **more)


world('splines', ['C04'], {
    'colloc_matrix': (w_colloc, dict(breaks=5, order=5, v=V, deriv=4)),
    'augment_breaks': (w_augment, dict(breaks=5, order=4)),
    'pp_from_bspline': (w_from_bspline, dict(breaks=5, order=4, c=3)),
    'synth_from_pp': (w_frompp, args_of(4, breaks=5, order=3, c=3, nmax=3,
                                        deriv=4, source=3)),
    '!r_surf': R_SURF})


def vector(env, key, v, n, axis):
    x = env.vals(key, v, 0, *B_)
    x = np.concatenate((x, x[::-1], x[:3]))[:n]
    return env.own(key + ' all', np.stack((x, 2*x), axis))


def w_spectrum(cp, env, obj, c, n, axis, radius, nmax, source):
    return cp.model_utils.power_spectrum(
        vector(env, 'c', c, [15, 8, 3][n], axis),
        [None, 6371.2, 6371., 7000., 3485.][radius],
        nmax=[None, 1, 2][nmax], axis=[-1, 0][axis] if n < 2 else axis - 1,
        source=['internal', 'external', 'toroidal'][source])


def w_correlation(cp, env, obj, a, b, n, fn):
    n = [15, 8, 3][n]
    x, y = (vector(env, k, v, n, 0)[0] for k, v in zip('ab', (a, b)))
    return [cp.model_utils.degree_correlation,
            cp.model_utils.sensitivity][fn](x, y)


world('spectra', ['C05'], {
    'power_spectrum': (w_spectrum, dict(c=V, n=3, axis=2, radius=5, nmax=3,
                                        source=3)),
    'degrees': (w_correlation, dict(a=V, b=V, n=3, fn=2)),
    '!r_surf': R_SURF})


# ------------------------------------------------------- coordinate_utils

def simple(name, *ranges, module='coordinate_utils'):
    def fn(cp, env, obj, **kw):
        return getattr(getattr(cp, module), name)(*arrays(env, kw, *ranges))
    return fn, args_of(len(ranges))


world('sphere', ['C06'], {
    'spherical_to_cartesian': simple('spherical_to_cartesian', R_, TH, PH),
    'cartesian_to_spherical': simple('cartesian_to_spherical', B_, B_, B_),
    'center_azimuth': simple('center_azimuth', B_),
    'local_time': simple('local_time', T_, PH)})

H_ = (0., 900.)
world('geodetic', ['C07'], {
    'gg_to_geo': simple('gg_to_geo', H_, TH),
    'gg_to_geo 4': simple('gg_to_geo', H_, TH, B_, B_),
    'geo_to_gg': simple('geo_to_gg', R_, TH),
    'geo_to_gg 4': simple('geo_to_gg', R_, TH, B_, B_),
    'basevectors_gg': simple('basevectors_gg', TH, TH),
    '!ellipsoid': ELLIPSOID})

DIPOLES = [None, (-29442.0, -1501.0, 4797.1), (-29442.0, -1501.0, 4800.),
           (10., 200.), (10., 200.5), (30., 1., 2.)]


def dipole(env, i, lists):
    d = DIPOLES[i]
    if d is None:
        return None
    return env.own('dipole', np.array(d)) if lists == 0 else \
        list(d) if lists == 1 else tuple(d)


def w_points(cp, env, obj, **kw):
    a, b, t = arrays(env, kw, TH, PH, T_)
    ref = ['gsm', 'sm', 'mag', 'GSM'][kw['ref']]
    return cp.coordinate_utils.transform_points(
        a, b, time=t, reference=ref, inverse=[None, False, True][kw['inv']],
        dipole=dipole(env, kw['dipole'], kw['lists']))


def w_vectors(cp, env, obj, **kw):
    a, b, x, y, t = arrays(env, kw, TH, PH, B_, B_, T_)
    ref = ['gsm', 'sm', 'mag', 'SM'][kw['ref']]
    return cp.coordinate_utils.transform_vectors(
        a, b, x, y, time=t, reference=ref,
        inverse=[None, False, True][kw['inv']],
        dipole=dipole(env, kw['dipole'], kw['lists']))


def w_base(cp, env, obj, v0, shape, ref, dip, lists):
    d = dipole(env, dip, lists)
    cu = cp.coordinate_utils
    if ref == 2:
        return cu.basevectors_mag(dipole=d)
    if ref == 3:
        return cu.dipole_to_vec(d)
    t = env.vals('t', v0, shape, *T_)
    return [cu.basevectors_gsm, cu.basevectors_sm][ref](t, dipole=d)


def turn(env, i):
    q, _ = np.linalg.qr(fill(env.salt + i, 3, 3) + 2*np.eye(3))
    q = q*np.sign(np.linalg.det(q))
    return [env.own(f'base{k}', q[k]) for k in range(3)]


def w_general(cp, env, obj, v0, v1, shape, base, inv, fn):
    a, b = arrays(env, dict(v0=v0, v1=v1, shape=shape), TH, PH)
    cu = cp.coordinate_utils
    return [cu.geo_to_base, cu.matrix_geo_to_base][fn](
        a, b, *turn(env, base), inverse=[None, False, True][inv])


def w_igrf(cp, env, obj, epoch):
    return cp.coordinate_utils.igrf_dipole(
        ['2015', '2010', '2020', '1999', None][epoch])


world('frames', ['C08'], {
    'transform_points': (w_points, args_of(3, ref=4, inv=3, dipole=6,
                                           lists=3)),
    'transform_vectors': (w_vectors, args_of(5, ref=4, inv=3, dipole=6,
                                             lists=3)),
    'basevectors': (w_base, dict(v0=V, shape=S, ref=4, dip=6, lists=3)),
    'basevectors_use': simple('basevectors_use', TH, PH),
    'base': (w_general, dict(v0=V, v1=V, shape=S, base=3, inv=3, fn=2)),
    'igrf_dipole': (w_igrf, dict(epoch=5)),
    '!dipole': DIPOLE})


def w_rotate(cp, env, obj, nmax, kmax, base):
    return cp.coordinate_utils.rotate_gauss(nmax + 1, kmax + 1,
                                            *turn(env, base))


def w_analysis(cp, env, obj, nmax, kmax, func):
    def f(theta, phi):
        x, y = np.radians(theta), np.radians(phi)
        return [np.cos(x), np.sin(x)*np.cos(y), np.sin(2*x)*np.sin(y),
                np.sin(x)*np.cos(y) + 1][func]
    return cp.coordinate_utils.sh_analysis(
        f, nmax + 1, kmax=None if kmax == 0 else kmax)


world('rotation', ['C09'], {
    'rotate_gauss': (w_rotate, dict(nmax=4, kmax=4, base=4)),
    'sh_analysis': (w_analysis, dict(nmax=4, kmax=6, func=4))})

world('sun', ['C10'], {
    'sun_position': simple('sun_position', T_),
    'zenith_angle': simple('zenith_angle', T_, TH, PH)})


def w_synthrot(cp, env, obj, v0, shape, k, spec, freq, scaled):
    t = np.asarray(env.vals('0', v0, shape, *T_))
    k = [1, 2, 4][k]
    f = env.own('f', np.abs(np.round(3*fill(env.salt + freq, k))))
    if freq > 2:
        f = env.own('f', np.abs(np.round(3*fill(env.salt + freq, k, 3, 2))))
    s = env.own('s', fill(env.salt + 9 + spec, k, 3, 2)
                + 1j*fill(env.salt + 19 + spec, k, 3, 2))
    return cp.coordinate_utils.synth_rotate_gauss(
        t, f, s, scaled=[None, False, True][scaled])


def w_fft(cp, env, obj, nmax, kmax, step, N, filt, ref, scaled, start, q,
          save):
    def qf(freq, k):
        return np.full(np.shape(freq), (k + 2.)*q) + 0j
    more = dict(step=[None, 1., 3., 6.][step], N=[24, 48, 96, 97][N],
                filter=[None, 3, 5][filt],
                reference=[None, 'gsm', 'sm'][ref],
                scaled=[None, True, False][scaled],
                start_date=[None, 0., 100., 100.5][start],
                qfunc=[None, qf, qf][q])
    if save:
        f = 'out.npz'
        if os.path.exists(f):
            os.remove(f)
        more['save_to'] = f
    out = cp.coordinate_utils.rotate_gauss_fft(nmax + 1, kmax + 1, **{
        k: v for k, v in more.items() if v is not None})
    if save:
        with np.load(f, allow_pickle=False) as g:
            return out, {k: g[k] for k in g.files}
    return out


def conductivity(cp, env, obj, i, r):
    radius = [np.array([0., 300., 900., 2891.]),
              np.array([0., 300., 1000., 2891.]),
              np.array([0., 600.])][r]
    sigma = 10.**fill(env.salt + i, radius.size)
    with open('sigma.dat', 'w') as f:
        for a, b in zip(radius.tolist(), sigma.tolist()):
            f.write(f'{a!r} {b!r}\n')
    cp.basicConfig['file.Earth_conductivity'] = 'sigma.dat'


CONDUCTIVITY = conductivity, dict(i=3, r=3)

world('fourier', ['C11'], {
    'synth_rotate_gauss': (w_synthrot, dict(v0=V, shape=S, k=3, spec=2,
                                            freq=5, scaled=3)),
    'rotate_gauss_fft': (w_fft, dict(
        nmax=2, kmax=2, step=4, N=4, filt=3, ref=3, scaled=3, start=4, q=3,
        save=2)),
    '!dipole': DIPOLE, '!conductivity': CONDUCTIVITY})


def w_response(cp, env, obj, T, n, layers, sig, rad, kind, scalar):
    t = env.vals('T', T, 0, 4., 8.)
    t = 10.**t[:3]
    L = [2, 3, 5][layers]
    r = env.own('r', 6371.2*np.cumprod(np.append(
        1., gen.spread(env.salt + rad, (L - 1,), .7, .99))))
    s = env.own('s', 10.**fill(env.salt + 7 + sig, L))
    return cp.coordinate_utils.q_response_1D(
        float(t[0]) if scalar else env.own('T', t), s, r, n + 1,
        kind=[None, 'quadratic', 'constant'][kind])


def w_qmatrix(cp, env, obj, f, n):
    x = env.own('freq', np.append(0., 10.**env.vals('f', f, 0, -8., -4.)))
    return cp.coordinate_utils.q_response(x, n + 1)


world('induction', ['C12'], {
    'q_response_1D': (w_response, dict(T=V, n=4, layers=3, sig=3, rad=3,
                                       kind=3, scalar=2)),
    'q_response': (w_qmatrix, dict(f=V, n=3)),
    '!conductivity': CONDUCTIVITY})


# ------------------------------------------------------------- data_utils

def w_mjd(cp, env, obj, **kw):
    y, mo, d, h, s = arrays(env, kw, (1800., 2200.), (1., 12.), (1., 28.),
                            (0., 23.), (0., 59.))
    whole = [env.own(k, np.round(x).astype(int)) for k, x in
             zip('ymdhs', (y, mo, d, h, s))]
    return cp.data_utils.mjd2000(*whole[:4], second=whole[4])


def w_dates(cp, env, obj, v0, shape, kind):
    t = np.asarray(env.vals('0', v0, shape, *T_))
    x = np.datetime64('2000-01-01') + np.round(t*86400).astype('m8[s]')
    if kind == 1:
        x = x.astype('M8[D]')
    if kind == 2 and x.ndim == 1:
        x = x.tolist()
    return cp.data_utils.mjd2000(x)


def w_dyear(cp, env, obj, v0, shape, leap, fn):
    x = env.vals('0', v0, shape, *((1800., 2200.) if fn == 0 else T_))
    return [cp.data_utils.dyear_to_mjd, cp.data_utils.mjd_to_dyear][fn](
        x, leap_year=[None, False, True][leap])


def w_leap(cp, env, obj, v0, shape):
    y = np.round(env.vals('0', v0, shape, 1600., 2400.)).astype(int)
    return cp.data_utils.is_leap_year(env.own('y', y))


world('time', ['C13'], {
    'mjd2000': (w_mjd, args_of(5)),
    'mjd2000 dates': (w_dates, dict(v0=V, shape=S, kind=3)),
    'timestamp': simple('timestamp', T_, module='data_utils'),
    'dyear': (w_dyear, dict(v0=V, shape=S, leap=3, fn=2)),
    'is_leap_year': (w_leap, dict(v0=V, shape=S))})


def shc_text(env, i, n, deg, order, header=0):
    t = np.sort(np.round(2000. + 20*fill(env.salt + 5, 5), 4))[:n]
    c = np.round(1e3*fill(env.salt + i, n, deg*(deg + 2)), 3)
    if n < order:
        order = 1
    out = ['# one\n', '! two\n', '# one\n# two\n'][header]
    out += f'1 {deg} {n} {order} {max(order - 1, 1)}\n'
    out += '  ' + ' '.join(map(repr, t.tolist())) + '\n'
    k = 0
    for l in range(1, deg + 1):
        for m in [0] + [s*m for m in range(1, l + 1) for s in (1, -1)]:
            out += f'{l} {m} ' + ' '.join(map(repr, c[:, k].tolist())) + '\n'
            k += 1
    return out


SHC = ['model.shc', 'other.shc']
OUT = ['out.shc', 'out2.shc']


def shc_file(cp, env, obj, f, i, n, deg, order, header):
    with open(SHC[f], 'w') as g:
        g.write(shc_text(env, i, [1, 3, 5][n], deg + 1, order + 1, header))


def w_load_shc(cp, env, obj, f, leap, comment, fn):
    leap = [None, False, True][leap]
    if fn == 0:
        return cp.data_utils.load_shcfile(
            SHC[f], leap_year=leap, comment=[None, '!', ('#', '!')][comment])
    m = (cp.chaos.BaseModel.from_shc if fn == 1 else cp.CHAOS.from_shc if
         fn == 2 else cp.load_CHAOS_shcfile)(
        SHC[f], leap_year=leap, **({'name': 'x'} if comment else {}))
    return dict(m=m, at=(m if fn == 1 else m.model_tdep).synth_coeffs(
        np.array([0., 100.])) if fn == 1 else 0)


def w_save_shc(cp, env, obj, f, t, c, n, deg, order, leap, nmin, nmax):
    n = [1, 3, 5][n]
    time = env.own('t', np.sort(9e3*fill(env.salt + t, n)))
    co = env.own('c', 1e3*fill(env.salt + 7 + c, n, (deg + 1)*(deg + 3)))
    cp.data_utils.save_shcfile(
        time, co, filepath=OUT[f], order=[None, 1, 2][order],
        leap_year=[None, False, True][leap], nmin=[None, 1, 2][nmin],
        nmax=[None, 1, 2][nmax])
    with open(OUT[f]) as g:
        # without the lines that may hold the date
        return [x for x in g.read().splitlines() if not x.startswith('#')]


def shc_setup(cp, env):
    for f in (0, 1):
        shc_file(cp, env, None, f, f, 2, 1, 0, 0)
    return dict(m=None)


def w_to_shc(cp, env, obj, i, order, leap, nmin, nmax, f):
    k = [1, 2, 4][order]
    m = cp.chaos.BaseModel('x', env.own('b', 400*BREAKS[0]), k, env.own(
        'co', fill(env.salt + i, k, 3, 8)))
    m.to_shc(OUT[f], leap_year=[None, False, True][leap],
             nmin=[None, 1, 2][nmin], nmax=[None, 1, 2][nmax])
    with open(OUT[f]) as g:
        return [x for x in g.read().splitlines() if not x.startswith('#')]


FILE = dict(f=2, i=3, n=3, deg=2, order=2, header=3)
world('shc', ['C14'], {
    'load': (w_load_shc, dict(f=2, leap=3, comment=3, fn=4)),
    'save': (w_save_shc, dict(f=2, t=2, c=2, n=3, deg=2, order=3, leap=3,
                              nmin=3, nmax=3)),
    'to_shc': (w_to_shc, dict(i=2, order=3, leap=3, nmin=3, nmax=3, f=2)),
    '!file': (shc_file, FILE)}, setup=shc_setup)


# ----------------------------------------------------------------- models

def base_setup(cp, env):
    k = [4, 2, 6, 1, 3][env.salt % 5]
    b = np.array([0., 300., 700., 1500.])
    c = fill(env.salt, k, 3, 8)*(1e-2**np.arange(k)[::-1])[:, None, None]
    return cp.chaos.BaseModel('x', b, k, c)


MODES = [None, 'linear', 'constant', 'spline', 'off', 'quadratic', 'cubic',
         False, True]
INSIDE, AROUND = (0., 1500.), (-300., 1900.)


def w_coeffs(rng):
    def fn(cp, env, obj, v, shape, nmax, deriv, mode):
        t = env.vals('t', v, shape, *rng)
        kw = dict(nmax=[None, 1, 2][nmax], deriv=[None, 0, 1, 2][deriv],
                  extrapolate=MODES[mode])
        return obj.synth_coeffs(t, **{k: x for k, x in kw.items()
                                      if x is not None})
    return fn, dict(v=V, shape=S, nmax=3, deriv=4, mode=len(MODES))


def w_base_coeffs(cp, env, obj, v, shape, dim, deriv, mode):
    t = env.vals('t', v, shape, *AROUND)
    kw = dict(dim=[None, 1, 5, 8][dim], deriv=[None, 0, 1, 2][deriv],
              extrapolate=MODES[mode])
    return cp.chaos.Base.synth_coeffs(obj, t, **{
        k: x for k, x in kw.items() if x is not None})


def w_values(cp, env, obj, **kw):
    t, r, th, p = arrays(env, kw, AROUND, R_, TH, PH)
    more = dict(nmax=[None, 1, 2][kw['nmax']],
                deriv=[None, 0, 1, 2][kw['deriv']],
                extrapolate=MODES[kw['mode']],
                grid=[None, False, True][kw['grid']])
    if kw['grid'] == 2:
        t, r = float(np.ravel(t)[0]), float(np.ravel(r)[0])
        th, p = np.ravel(th), np.ravel(p)
    return obj.synth_values(t, r, th, p, **{k: x for k, x in more.items()
                                            if x is not None})


def w_spec(cp, env, obj, v, shape, radius, nmax, deriv):
    t = env.vals('t', v, shape, *INSIDE)
    kw = dict(nmax=[None, 1, 2][nmax], deriv=[None, 0, 1, 2][deriv])
    return obj.power_spectrum(t, [None, 6371.2, 3485.][radius], **{
        k: x for k, x in kw.items() if x is not None})


def set_coeffs(cp, env, obj, how, i):
    """The caller changes the model, in place or for another array."""
    new = fill(env.salt + 40 + i, *obj.coeffs.shape)
    if how == 0:
        obj.coeffs = new
    elif how == 1:
        obj.coeffs[...] = new
    elif how == 2:
        obj.coeffs[-1, 0, 0] += i + 1.
    else:
        obj.coeffs *= 2.


def set_breaks(cp, env, obj, how, i):
    new = np.array([[0., 300., 700., 1500.], [0., 310., 700., 1500.],
                    [-50., 300., 700., 1400.]][i])
    if how == 0:
        obj.breaks = new
    else:
        obj.breaks[...] = new


def set_source(cp, env, obj, i):
    obj.source = ['internal', 'external'][i]


VALUES = args_of(4, nmax=3, deriv=4, mode=len(MODES), grid=3)
SET = {'!coeffs': (set_coeffs, dict(how=4, i=2)),
       '!breaks': (set_breaks, dict(how=2, i=3))}
world('model', ['C15'], {
    'synth_coeffs': w_coeffs(INSIDE),
    'base': (w_base_coeffs, dict(v=V, shape=S, dim=4, deriv=4, mode=9)),
    **SET}, setup=base_setup)
world('outside', ['C16'], {
    'synth_coeffs': w_coeffs(AROUND), 'synth_values': (w_values, VALUES),
    **SET}, setup=base_setup)
world('field', ['C17'], {
    'synth_values': (w_values, VALUES),
    'synth_coeffs': w_coeffs(AROUND),
    'power_spectrum': (w_spec, dict(v=V, shape=S, radius=3, nmax=3,
                                    deriv=4)),
    '!r_surf': R_SURF, '!source': (set_source, dict(i=2)), **SET},
    setup=base_setup)


def w_bspline(cp, env, obj, breaks, order, c, v, deriv, name):
    k = [1, 2, 4, 6][order]
    knots = knots_of(env, breaks, k)
    x = env.own('c', fill(env.salt + c, knots.size - k, 8))
    m = cp.chaos.BaseModel.from_bspline(['x', 'y'][name], knots, x, k)
    return dict(m=m, at=m.synth_coeffs(env.vals('t', v, 0, 0., 9.),
                                       deriv=[0, 1, 2][deriv]))


world('bspline', ['C18'], {
    'from_bspline': (w_bspline, dict(breaks=5, order=4, c=3, v=V, deriv=3,
                                     name=2))})


# ------------------------------------------------------------------ CHAOS

KEYS = ('q10', 'q11', 's11')


def chaos_model(cp, env, i=0, **kw):
    s = env.salt + 1000*i
    b = np.array([0., 300., 700., 1500.])
    c = fill(s, 4, 3, 15)*(1e-2**np.arange(4)[::-1])[:, None, None]
    d = np.array([0., 400., 1500.])
    args = dict(
        coeffs_tdep=c, coeffs_static=fill(s + 1, 24),
        coeffs_sm=fill(s + 2, 8), coeffs_gsm=fill(s + 3, 8)
        * np.array([1, 0, 0, 1, 0, 0, 0, 0.]),
        breaks_delta={k: d.copy() for k in KEYS},
        coeffs_delta={k: 9*fill(s + 4 + j, 1, 2) for j, k in
                      enumerate(KEYS)},
        breaks_euler={'a': d.copy(), 'b': np.array([0., 900., 1500.])},
        coeffs_euler={k: fill(s + 8 + j, 1, 2, 3)
                      for j, k in enumerate('ab')},
        meta=dict(params=dict(Euler_prerotation=fill(s + 10, 2, 3)),
                  satellites=('a', 'b')))
    args.update(kw)
    return cp.CHAOS(b, 4, **args)


def rc_lines(env, i, n):
    t = -400. + np.arange(n)*(2400./(n - 1))
    return t, 50*fill(env.salt + 60 + i, 3, n)


RCFILES = ['rc.dat', 'rc.h5', 'rc_2.dat', 'rc_2.h5']


def rc_write(cp, env, obj, f, i, n, use):
    import h5py
    t, x = rc_lines(env, i, [30, 30, 31][n])
    name = RCFILES[f]
    if os.path.exists(name):
        os.remove(name)
    if name.endswith('.dat'):
        with open(name, 'w') as g:
            for row in zip(t.tolist(), *x.tolist()):
                g.write(' '.join(map(repr, row)) + ' D\n')
    else:
        with h5py.File(name, 'w') as g:
            for k, v in zip(('time', 'RC', 'RC_e', 'RC_i'), (t, *x)):
                g[k] = v
            g['flag'] = np.array([b'D']*t.size)
    if use:
        cp.basicConfig['file.RC_index'] = name


def rc_use(cp, env, obj, f):
    cp.basicConfig['file.RC_index'] = RCFILES[f]


def spec_write(cp, env, obj, f, which, i, n, k, scaled):
    name = ['GSM', 'SM'][which]
    n = 8
    k = [2, 3][k]
    s = env.salt + 70 + 10*i + 5*which
    np.savez(f'{name}_{f}.npz',
             frequency=np.abs(np.round(4*fill(s, k, n, n))),
             spectrum=fill(s + 1, k, n, n) + 1j*fill(s + 2, k, n, n),
             frequency_ind=np.abs(np.round(4*fill(s + 3, k, n, n))),
             spectrum_ind=fill(s + 4, k, n, n) + 1j*fill(s + 5, k, n, n),
             scaled=bool(scaled), dipole=cp.basicConfig['params.dipole'])
    cp.basicConfig[f'file.{name}_spectrum'] = f'{name}_{f}.npz'


DEFAULTS = {}


def spec_use(cp, env, obj, f, which):
    name = ['GSM', 'SM'][which]
    key = f'file.{name}_spectrum'
    cp.basicConfig[key] = f'{name}_{f}.npz' if f < 2 else os.path.join(
        os.path.dirname(cp.__file__), 'lib', f'frequency_spectrum_'
        f'{name.lower()}.npz')


def chaos_setup(cp, env):
    for f in range(4):
        rc_write(cp, env, None, f, f, 0, True)
    for f in range(2):
        for which in range(2):
            spec_write(cp, env, None, f, which, f, 0, 0, f)
    spec_use(cp, env, None, env.salt % 3, 0)
    spec_use(cp, env, None, env.salt // 3 % 3, 1)
    rc_use(cp, env, None, 0)
    return chaos_model(cp, env)


SRC = [None, 'external', 'internal', 'all']


def rc_arg(env, i, v, shape):
    if i < 2:
        return None
    return env.vals('rc', v, shape, -50., 50.)


def w_cgsm(cp, env, obj, **kw):
    t, = arrays(env, kw, (0., 1500.))
    more = only(dict(nmax=[None, 1, 2][kw['nmax']], source=SRC[kw['src']]),
                'nmax', 'source')
    return obj.synth_coeffs_gsm(t, **more)


def w_csm(cp, env, obj, **kw):
    t, = arrays(env, kw, (0., 1500.))
    more = only(dict(nmax=[None, 1, 2][kw['nmax']],
                     source=SRC[kw['src'] % 3],
                     rc=rc_arg(env, kw['rc'], kw['vrc'], kw['shape'])),
                'nmax', 'source', 'rc')
    return obj.synth_coeffs_sm(t, **more)


def w_vext(cp, env, obj, **kw):
    t, r, th, p = arrays(env, kw, (0., 1500.), R_, TH, PH)
    more = only(dict(nmax=[None, 1, 2][kw['nmax']], source=SRC[kw['src']],
                     grid=[None, False, True][kw['grid']]),
                'nmax', 'source', 'grid')
    if kw['grid'] == 2:
        t, r = float(np.ravel(t)[0]), float(np.ravel(r)[0])
        th, p = np.ravel(th), np.ravel(p)
    if kw['which'] == 0:
        return obj.synth_values_gsm(t, r, th, p, **more)
    if kw['grid'] != 2:
        for k in ('rc_e', 'rc_i'):
            x = rc_arg(env, kw[k], kw['vrc'], kw['shape'])
            if x is not None:
                more[k] = x
    return obj.synth_values_sm(t, r, th, p, **more)


def w_call(cp, env, obj, **kw):
    t, r, th, p = arrays(env, kw, AROUND, R_, TH, PH)
    more = only(dict(
        source_list=[None, ['tdep'], ['tdep', 'static'], ['gsm', 'sm'],
                     ('sm',), 'internal', 'external', ['static']][kw['list']],
        nmax_static=[None, 1, 3][kw['nmax']],
        verbose=[None, False][kw['verb']]),
        'source_list', 'nmax_static', 'verbose')
    for k in ('rc_e', 'rc_i'):
        x = rc_arg(env, kw[k], kw['vrc'], kw['shape'])
        if x is not None:
            more[k] = x
    return obj(t, r, th, p, **more)


def set_part(cp, env, obj, part, how, i):
    """The caller changes a part of the model."""
    x = [lambda: obj.model_tdep.coeffs, lambda: obj.model_static.coeffs,
         lambda: obj.coeffs_sm, lambda: obj.coeffs_gsm,
         lambda: obj.coeffs_delta['q10'], lambda: obj.coeffs_delta['s11'],
         lambda: obj.model_euler['a'].coeffs][part]()
    new = fill(env.salt + 90 + i, *x.shape)*np.where(x, 1., 0.)
    if how == 0:
        x[...] = new
    elif part == 0:
        obj.model_tdep.coeffs = new
    elif part == 1:
        obj.model_static.coeffs = new
    elif part == 2:
        obj.coeffs_sm = new
    elif part == 3:
        obj.coeffs_gsm = new
    elif part == 6:
        obj.model_euler['a'].coeffs = new
    else:
        obj.coeffs_delta[['q10', 's11'][part - 4]] = new


def w_ctdep(cp, env, obj, **kw):
    t, r, th, p = arrays(env, kw, AROUND, R_, TH, PH)
    more = only(dict(nmax=[None, 1, 3][kw['nmax']],
                     deriv=[None, 1][kw['deriv']],
                     extrapolate=MODES[kw['mode']]),
                'nmax', 'deriv', 'extrapolate')
    if kw['what'] == 0:
        return obj.synth_coeffs_tdep(t, **more)
    if kw['what'] == 1:
        return obj.synth_values_tdep(t, r, th, p, **more)
    if kw['what'] == 2:
        return obj.synth_values_static(r, th, p, **only(more, 'nmax'))
    return obj.synth_coeffs_static(**only(more, 'nmax'))


PART = set_part, dict(part=7, how=2, i=2)
RC_WRITE = rc_write, dict(f=4, i=3, n=3, use=2)
RC_USE = rc_use, dict(f=4)
SPEC_WRITE = spec_write, dict(f=2, which=2, i=3, n=1, k=2, scaled=2)
SPEC_USE = spec_use, dict(f=3, which=2)
EXT = {'synth_coeffs_gsm': (w_cgsm, args_of(1, nmax=3, src=4)),
       'synth_coeffs_sm': (w_csm, args_of(1, nmax=3, src=3, rc=4, vrc=V)),
       'synth_values': (w_vext, args_of(4, nmax=3, src=4, grid=3, which=2,
                                        rc_e=4, rc_i=4, vrc=V))}
CALL = w_call, args_of(4, list=8, nmax=3, verb=2, rc_e=4, rc_i=4, vrc=V)
TDEP = w_ctdep, args_of(4, nmax=3, deriv=2, mode=len(MODES), what=4)
world('external', ['C21'], {
    **EXT, '!RC': RC_WRITE, '!RC file': RC_USE, '!spectrum': SPEC_WRITE,
    '!spectrum file': SPEC_USE, '!part': (set_part, dict(part=7, how=2, i=2)),
    '!r_surf': R_SURF}, setup=chaos_setup)
world('sum', ['C20'], {
    'call': CALL, '!RC': RC_WRITE, '!RC file': RC_USE,
    '!spectrum': SPEC_WRITE, '!spectrum file': SPEC_USE, '!part': PART,
    '!r_surf': R_SURF}, setup=chaos_setup)
world('parts', ['C17'], {
    'internal': TDEP, '!part': (set_part, dict(part=2, how=2, i=2)),
    '!r_surf': R_SURF}, setup=chaos_setup)


def w_rcload(cp, env, obj, f, parse):
    return cp.data_utils.load_RC_datfile(RCFILES[[0, 2][f]], parse_dates=[
        None, False, True][parse])


def w_rch5(cp, env, obj, f, to):
    import h5py
    name = ['out.h5', 'out2.h5'][to]
    if os.path.exists(name):
        os.remove(name)
    cp.data_utils.save_RC_h5file(name, read_from=RCFILES[[0, 2][f]])
    with h5py.File(name, 'r') as g:
        return {k: g[k][()] for k in ('time', 'RC', 'RC_e', 'RC_i')}


world('index', ['C22'], {
    'load': (w_rcload, dict(f=2, parse=3)),
    'convert': (w_rch5, dict(f=2, to=2)),
    'synth_coeffs_sm': (w_csm, args_of(1, nmax=3, src=3, rc=2, vrc=1)),
    '!RC': RC_WRITE, '!RC file': RC_USE}, setup=chaos_setup)


MATS = ['m.mat', 'CHAOS_x.mat', 'out.mat', 'out2.mat']


def mat_write(cp, env, obj, f, i, parts):
    if os.path.exists(MATS[f]):
        os.remove(MATS[f])
    kw = {}
    if parts == 1:
        kw = dict(coeffs_static=None)
    elif parts == 2:
        kw = dict(breaks_delta=None, coeffs_delta=None, coeffs_sm=None,
                  coeffs_gsm=None)
    m = chaos_model(cp, env, i, **kw)
    m.save_matfile(MATS[f])


def w_matload(cp, env, obj, f, name, sats, fn):
    kw = only(dict(name=[None, 'y'][name], satellites=[
        None, ['a', 'b'], ['b', 'a'], ('c', 'd')][sats]), 'name',
        'satellites')
    m = [cp.load_CHAOS_matfile, cp.CHAOS.from_mat][fn](MATS[f], **kw)
    return dict(m=m, euler={k: m.model_euler[k] for k in m.model_euler},
                text=str(m).split(':')[0])


def w_matsave(cp, env, obj, i, f, parts, back):
    mat_write(cp, env, obj, f + 2, i, parts)
    return cp.data_utils.load_matfile(MATS[f + 2])


def mat_setup(cp, env):
    for f in (0, 1):
        mat_write(cp, env, None, f, f, 0)


world('mat', ['C19'], {
    'load': (w_matload, dict(f=2, name=2, sats=4, fn=2)),
    'save': (w_matsave, dict(i=2, f=2, parts=3, back=2)),
    '!file': (mat_write, dict(f=2, i=3, parts=3))}, setup=mat_setup)


TXT = ['model.txt', 'igrf.txt', 'cals.txt', 'cov.txt']


def txt_write(cp, env, obj, f, i, deg, n):
    deg, s = deg + 1, env.salt + i
    D = deg*(deg + 2)
    if TXT[f] == 'igrf.txt':
        y = 1990 + 5*np.arange(n + 1)
        lines = ['# comment\n', 'c/s deg ord ' + ' '.join(['IGRF']*len(y))
                 + ' SV\n', 'g/h n m ' + ' '.join('%.1f' % x for x in y)
                 + f' {y[-1]}-{y[-1] % 100 + 5}\n']
        val, k = np.round(1e3*fill(s, D, len(y) + 1), 2), 0
        for l in range(1, deg + 1):
            for m in range(l + 1):
                for g in 'gh'[:1 + (m > 0)]:
                    lines.append(f'{g} {l} {m} ' + ' '.join(
                        '%.2f' % x for x in val[k]) + '\n')
                    k += 1
    else:
        nspl = 4 + n
        b = 1900. + np.round(np.cumsum(1 + 3*np.abs(fill(s + 7, nspl + 4))),
                             3)
        c = np.round(1e3*fill(s, nspl, D), 4).ravel()
        w = [' '.join('%.4f' % x for x in c[j:j + 5]) + '\n'
             for j in range(0, c.size, 5)]
        bt = ' '.join('%.4f' % x for x in b) + '\n'
        lines = {'model.txt': ['gufm1 x\n', f'{deg} {nspl}\n', bt],
                 'cov.txt': ['COV\n', f'{deg} {nspl} 4 ' + bt],
                 'cals.txt': ['%.4f %.4f\n' % (b[3], b[-4]),
                              f'4 0 {deg} 0 {nspl}\n', bt]}[TXT[f]] + w
    with open(TXT[f], 'w') as g:
        g.writelines(lines)


def w_txt(cp, env, obj, f, name, v):
    load = [cp.load_gufm1_txtfile, cp.load_IGRF_txtfile,
            cp.load_CALS7K_txtfile, cp.load_CovObs_txtfile][f]
    m = load(TXT[f], **({} if name == 0 else dict(name='z')))
    a, b = m.breaks[0], m.breaks[-1]
    return dict(m=m, at=m.synth_coeffs(a + (b - a)*env.vals(
        't', v, 0, 0., 1.)))


def txt_setup(cp, env):
    for f in range(4):
        txt_write(cp, env, None, f, f, 1, 1)


world('text', ['C23'], {
    'load': (w_txt, dict(f=4, name=2, v=V)),
    '!file': (txt_write, dict(f=4, i=3, deg=2, n=3))}, setup=txt_setup)


def w_euler(cp, env, obj, v, shape, sat, dim, deriv, mode):
    t = env.vals('t', v, shape, *AROUND)
    kw = only(dict(dim=[None, 1, 3][dim], deriv=[None, 0, 1][deriv],
                   extrapolate=MODES[mode]), 'dim', 'deriv', 'extrapolate')
    return obj.synth_euler_angles(t, 'abc'[sat], **kw)


def set_euler(cp, env, obj, how, i):
    m = obj.model_euler['ab'[i]]
    if how == 0:
        m.coeffs = fill(env.salt + 95, *m.coeffs.shape)
    elif how == 1:
        m.coeffs += 1.
    else:
        m.breaks[1] = 600.


world('euler', ['C24'], {
    'angles': (w_euler, dict(v=V, shape=S, sat=3, dim=3, deriv=3, mode=9)),
    '!model': (set_euler, dict(how=3, i=2))},
    setup=lambda cp, env: chaos_model(cp, env))
