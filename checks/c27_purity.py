import os
import numpy as np
import harness
from harness import Facet, agree, as_array, fill, require, same_bytes
import gen
import history
import ref
from c15_timedep import pp

PROPERTY = 'C27'
SCALE = 3         # times the cases of each facet in quick runs
RULE = ('A public function and random array inputs of random shape are '
        'drawn; the inputs are handed over writable, read-only, strided, as '
        'integers, and element by element. Sequences of method calls, plots, '
        'saves and settings on one model are compared with single calls on '
        'new models. Non-trivial: several elements, or several calls.')
ASSUMPTIONS = ['Results that are repeated have to agree bit by bit; results '
               'for the elements of an array or for strided or integer input '
               'up to rounding (NumPy rounds differently in vector loops).']


def cpu():
    return harness.chaosmagpy().coordinate_utils


def rot(salt):
    q, _ = np.linalg.qr(fill(salt, 3, 3) + 2*np.eye(3))
    return q if np.linalg.det(q) > 0 else -q


# how random arguments are made: (low, high), integers are inside as well
R_, TH, PH = (6000., 8000.), (1., 179.), (-180., 360.)
T_, LAT = (-3000., 9000.), (-89., 89.)
B_ = (-900., 900.)

# name: (ranges of the array arguments, place of the elements in the result,
#        extra keyword arguments made from a salt)
TABLE = {
    'coordinate_utils.spherical_to_cartesian': ([R_, TH, PH], 0),
    'coordinate_utils.cartesian_to_spherical': ([B_, B_, B_], 0),
    'coordinate_utils.gg_to_geo': ([(0., 900.), TH], 0),
    'coordinate_utils.gg_to_geo#4': ([(0., 900.), TH, B_, B_], 0),
    'coordinate_utils.geo_to_gg': ([R_, TH], 0),
    'coordinate_utils.geo_to_gg#4': ([R_, TH, B_, B_], 0),
    'coordinate_utils.basevectors_gg': ([TH, TH], 0),
    'coordinate_utils.basevectors_use': ([TH, PH], 0),
    'coordinate_utils.basevectors_gsm': ([T_], 0),
    'coordinate_utils.basevectors_sm': ([T_], 0),
    'coordinate_utils.sun_position': ([T_], 0),
    'coordinate_utils.zenith_angle': ([T_, TH, PH], 0),
    'coordinate_utils.center_azimuth': ([(-900., 900.)], 0),
    'coordinate_utils.local_time': ([T_, PH], 0),
    'coordinate_utils.transform_points': ([TH, PH, T_], 0, dict(
        reference=['gsm', 'sm', 'mag'], inverse=[False, True])),
    'coordinate_utils.transform_vectors': ([TH, PH, B_, B_, T_], 0, dict(
        reference=['gsm', 'sm', 'mag'], inverse=[False, True])),
    'coordinate_utils.geo_to_base': ([TH, PH], 0, dict(base=True,
                                     inverse=[False, True])),
    'coordinate_utils.matrix_geo_to_base': ([TH, PH], 0, dict(
        base=True, inverse=[False, True])),
    'data_utils.timestamp': ([T_], 0),
    'data_utils.is_leap_year': ([(1600., 2400.)], 0, dict(whole=True)),
    'data_utils.dyear_to_mjd': ([(1800., 2100.)], 0, dict(
        leap_year=[False, True])),
    'data_utils.mjd_to_dyear': ([T_], 0, dict(leap_year=[False, True])),
    'data_utils.mjd2000': ([(1800., 2100.), (1., 12.), (1., 28.),
                            (0., 23.), (0., 59.), (0., 59.)], 0,
                           dict(whole=True)),
    'model_utils.legendre_poly': ([TH], 2, dict(first=[1, 2, 4])),
    'model_utils.synth_values': ([R_, TH, PH], 0, dict(
        coeffs=True, source=['internal', 'external'], nmax=[None, 1, 2])),
    'model_utils.design_gauss': ([R_, TH, PH], 0, dict(
        nmax=[1, 2, 3], source=['internal', 'external'])),
    'model_utils.power_spectrum': ([(-120., 120.)], None, dict(
        tail=True, source=['internal', 'external', 'toroidal'])),
    'model_utils.degree_correlation': ([(-120., 120.)]*2, None,
                                       dict(tail=True)),
    'model_utils.sensitivity': ([(-120., 120.)]*2, None, dict(tail=True)),
}


DTYPES = ['int64', 'int32', 'int16', 'int8', 'uint64', 'uint32', 'uint16',
          'uint8']


def whole_as(dtype, x):
    """The same numbers as integers of this type, or of the default one."""
    info = np.iinfo(dtype)
    if np.all((x >= info.min) & (x <= info.max)):
        return x.astype(dtype)
    return x.astype(int)


def s_table(st, shapes):
    return st.fixed_dictionaries(dict(
        name=st.sampled_from(sorted(TABLE)), salt=gen.salt(st),
        shape=shapes, whole=st.booleans(), fortran=st.booleans(),
        dtype=st.sampled_from(DTYPES),
        form=st.sampled_from([None, None] + sorted(FORMS))))


def limits(case):
    """Ranges of the array arguments; times of two centuries now and then."""
    wide = (case['salt'] // 5) % 3 == 0
    return [(-36000., 36000.) if wide and r is T_ else r
            for r in TABLE[case['name']][0]]


def call(case):
    """Function, arrays and keywords of the case."""
    cp = harness.chaosmagpy()
    entry = TABLE[case['name']]
    ranges, place = limits(case), entry[1]
    extra = dict(entry[2]) if len(entry) > 2 else {}
    mod, name = case['name'].split('#')[0].split('.')
    f = getattr(getattr(cp, mod), name)
    s, shape = case['salt'], tuple(case['shape'])
    if extra.pop('tail', False):
        shape = (shape if name == 'power_spectrum' else ()) + (15,)
    arrays = [gen.spread(s + i, shape, *r) for i, r in enumerate(ranges)]
    if extra.pop('whole', False) or case['whole']:
        arrays = [np.round(a) + 0. for a in arrays]   # no -0.
    if name == 'basevectors_gg':
        arrays[1] = arrays[0] + (1. if case['whole'] else .1)
    fixed = []
    if extra.pop('base', False):
        fixed = [x.copy() for x in rot(s + 90).T]
        for i in range(3):
            fixed[i] = np.broadcast_to(fixed[i], shape + (3,)).copy()
    coeffs = extra.pop('coeffs', False)
    first = extra.pop('first', None)
    kw = {}
    for k, values in extra.items():
        v = values[(s // 3) % len(values)]
        if v is not None:
            kw[k] = v
    if name in ('transform_points', 'transform_vectors'):
        kw['time'] = arrays.pop()
    if name == 'mjd2000':
        arrays = [a.astype(int) for a in arrays]
    if name == 'is_leap_year':
        arrays = [a.astype(int) for a in arrays]
    if name == 'design_gauss':
        nmax = kw.pop('nmax')
        return f, arrays, [nmax], kw, place
    if coeffs:
        return (lambda r, t, p, c, **k: f(c, r, t, p, **k)), arrays, \
            [fill(s + 70, 15)], kw, place
    if first:
        n = first[s % len(first)]
        return (lambda t, **k: f(n, t, **k)), arrays, [], kw, place
    return f, arrays, fixed, kw, place


def results(out):
    return [np.array(x, copy=True) for x in out] if isinstance(
        out, (tuple, list)) else [np.array(out, copy=True)]


def freeze(values):
    out = []
    for v in values:
        if isinstance(v, np.ndarray):
            v = v.copy()
            v.flags.writeable = False
        out.append(v)
    return out


def same(a, b, what):
    require(len(a) == len(b), f'{what}: number of results')
    for i, (x, y) in enumerate(zip(a, b)):
        require(same_bytes(x, y), f'{what}: result {i} differs')


def s_pure(st):
    return s_table(st, st.lists(st.integers(1, 4), max_size=3))


def c_pure(case, ctx):
    f, arrays, fixed, kw, _ = call(case)
    ctx.nontrivial(np.prod(case['shape']) > 1)
    ctx.label(case['name'].split('.')[1])
    args = arrays + fixed
    keep = [np.array(a, copy=True) for a in args]
    kwkeep = {k: np.array(v, copy=True) for k, v in kw.items()}
    raw = f(*args, **kw)
    first = results(raw)

    def untouched(when):
        for i, (a, b) in enumerate(zip(args, keep)):
            require(np.array_equal(a, b), f'{case["name"]}: argument {i} '
                    f'changed {when}')
        for k, v in kwkeep.items():
            require(np.array_equal(kw[k], v), f'{case["name"]}: argument '
                    f'{k} changed {when}')
    untouched('by the call')
    # results belong to the caller
    for x in raw if isinstance(raw, (tuple, list)) else [raw]:
        if isinstance(x, np.ndarray) and x.flags.writeable and x.size:
            x[...] = 0 if x.dtype.kind != 'M' else np.datetime64('2000')
    second = results(f(*args, **kw))
    same(first, second, f'{case["name"]}: repeated call')
    ro = freeze(args)
    try:
        third = results(f(*ro, **{k: freeze([v])[0] for k, v in kw.items()}))
    except ValueError as err:
        if 'read-only' in str(err):
            raise harness.Violation(f'{case["name"]}: writes into its '
                                    'arguments')
        raise
    same(first, third, f'{case["name"]}: read-only arguments')
    # a later call with other values leaves earlier results as they are
    raw = f(*args, **kw)
    ranges = limits(case)
    kw2 = dict(kw)
    if 'time' in kw:
        kw2['time'] = sum(ranges.pop()) - kw['time']
    f(*[np.asarray(sum(r) - a, a.dtype) for r, a in zip(ranges, arrays)],
      *fixed, **kw2)
    same(first, results(raw), f'{case["name"]}: results after a later call')


def close(a, b, what):
    require(len(a) == len(b), f'{what}: number of results')
    for i, (x, y) in enumerate(zip(a, b)):
        if y.dtype.kind == 'M':
            require(np.array_equal(x, y), f'{what}: result {i}')
        elif y.dtype.kind == 'b':
            require(np.array_equal(x, y), f'{what}: result {i}')
        else:
            agree(x, y, 1e-10, f'{what}: result {i}',
                  scale=1. + np.max(np.abs(y), initial=0.), equal_nan=True)


# the same numbers in another kind of array, and functions that refuse them
FORMS = {'object': (lambda a: a.astype(object),
                    ('is_leap_year', 'sensitivity', 'basevectors_gg')),
         'longdouble': (lambda a: a.astype(np.longdouble),
                        ('is_leap_year', 'mjd2000')),
         'float32': (lambda a: a.astype(np.float32),
                     ('is_leap_year', 'mjd2000', 'local_time',
                      'mjd_to_dyear', 'dyear_to_mjd', 'center_azimuth')),
         'masked': (np.ma.array, ()),
         'subclass': (history.FORMS['subclass'], ()),
         'series': (history.FORMS['series'], ())}


def c_kinds(case, ctx):
    f, arrays, fixed, kw, _ = call(case)
    ctx.nontrivial(np.prod(case['shape']) > 1)
    ctx.label(case['name'].split('.')[1])
    name = case['name']
    base = results(f(*arrays, *fixed, **kw))
    strided = []
    for a in arrays:
        big = np.zeros(a.shape[:-1] + (3*a.shape[-1],), a.dtype) \
            if a.ndim else a
        if a.ndim:
            big[..., 1::3] = a
            a = big[..., 1::3]
        if case['fortran'] and a.ndim:
            a = np.asfortranarray(a)
        strided.append(a)
    close(results(f(*strided, *fixed, **kw)), base, f'{name}: strided')
    if case['whole']:
        ctx.label('integers', case.get('dtype', 'int64'))
        ints = [whole_as(case.get('dtype', 'int64'), a) for a in arrays]
        kwi = {k: (whole_as(case.get('dtype', 'int64'), v) if isinstance(v, np.ndarray)
                   else v) for k, v in kw.items()}
        close(results(f(*ints, *fixed, **kwi)), base,
              f'{name}: integers ({case.get("dtype")})')
    form = case.get('form')
    if form and name.split('.')[1] not in FORMS[form][1]:
        ctx.label(form)
        give = FORMS[form][0]
        other = [give(a) for a in arrays]
        if form == 'float32':       # the same numbers in double precision
            base = results(f(*[np.asarray(a, float) for a in other], *fixed,
                             **kw))
        try:
            out = f(*other, *fixed, **kw)
        except (TypeError, ValueError, AttributeError, LookupError):
            ctx.label(f'refused: {form}')
            return
        close(results(out), base, f'{name}: {form}')


def s_elements(st):
    return s_table(st, st.lists(st.integers(1, 3), min_size=1, max_size=3))


def c_elements(case, ctx):
    f, arrays, fixed, kw, place = call(case)
    shape = tuple(case['shape'])
    name = case['name']
    if name.split('.')[1] in ('power_spectrum', 'degree_correlation',
                              'sensitivity'):
        # coefficients in the last dimension
        if 'power' not in name:
            return
        whole = results(f(*arrays, **kw))
        ctx.nontrivial(np.prod(shape) > 1)
        for i in np.ndindex(*shape):
            close(results(f(*[a[i] for a in arrays], **kw)),
                  [w[i] for w in whole], f'{name} {i}')
        return
    whole = results(f(*arrays, *fixed, **kw))
    ctx.nontrivial(np.prod(shape) > 1)
    ctx.label(name.split('.')[1])
    for i in np.ndindex(*shape):
        k = {a: (v[i] if isinstance(v, np.ndarray) else v)
             for a, v in kw.items()}
        fx = [(x[i] if isinstance(x, np.ndarray) and x.shape[:-1] == shape
               and 'base' in name else x) for x in fixed]
        one = results(f(*[a[i] for a in arrays], *fx, **k))
        part = [w[(slice(None),)*place + i] for w in whole]
        close(one, part, f'{name} at {i}')


# ------------------------------------- functions with arguments of their own

def mixed(salt, *shape):
    """Numbers of very different size, zeros of both signs included."""
    x = fill(salt, *shape)
    k = np.floor(4.99*np.abs(fill(salt + 1, *shape))).astype(int)
    return np.choose(k, [x, 1e-9*x, 0.*x, 1e4*x, 1e-3*x])


def text_of(path):
    """Numbers in a file; the comments contain the time of day."""
    with open(path) as f:
        return np.array([float(w) for line in f if not line.startswith('#')
                         for w in line.split()])


def shc(cp, s, time, coeffs):
    cp.data_utils.save_shcfile(time, coeffs, order=2, filepath='o.shc',
                               nmin=[None, 1, 2][s % 3])
    return text_of('o.shc')


def to_shc(cp, s, breaks, coeffs):
    m = cp.chaos.BaseModel('m', breaks, 3, coeffs)
    m.to_shc('t.shc')
    return text_of('t.shc')


def base_model(cp, s, breaks, coeffs, time):
    m = cp.chaos.BaseModel('m', breaks, 3, coeffs)
    d = m.to_ppdict()
    return (m.synth_coeffs(time, deriv=s % 3, extrapolate='linear'),
            m.power_spectrum(time), d['coefs'], d['breaks'])


def plain_base(cp, s, breaks, coeffs, time):
    m = cp.chaos.Base('m', breaks, 3, coeffs)
    if os.path.exists('b.mat'):
        os.remove('b.mat')      # only new files, see C19
    m.save_matfile('b.mat')
    return m.synth_coeffs(time, dim=1 + s % 8), cp.data_utils.load_matfile(
        'b.mat')['pp']['coefs']


def lines(cp, s, *args):
    import matplotlib.pyplot as plt
    plt.close('all')
    cp.plot_utils.plot_timeseries(*args)
    out = [np.array(q.get_ydata(orig=True)) for a in plt.gcf().axes
           for q in a.lines]
    plt.close('all')
    return out


def maps(cp, s, *args):
    import matplotlib.pyplot as plt
    plt.close('all')
    cp.plot_utils.plot_maps(*args)
    out = [np.array(q.get_array()) for a in plt.gcf().axes
           if a.name == 'mollweide' for q in a.collections
           if hasattr(q, 'get_coordinates')]
    plt.close('all')
    return out


def spectrum(cp, s, x):
    import matplotlib.pyplot as plt
    plt.close('all')
    cp.plot_utils.plot_power_spectrum(x)
    out = np.ma.filled(plt.gcf().axes[0].lines[0].get_ydata(orig=True), -1.)
    plt.close('all')
    return out


def rc_file(cp, s, values):
    """The RC-index read from and written to files."""
    du = cp.data_utils
    with open('RC.dat', 'w') as f:
        for i, row in enumerate(values):
            f.write(f'{i - 50 + i/24:.6f} {row[0]:.2f} {row[1]:.2f} '
                    f'{row[2]:.2f} D\n')
    du.save_RC_h5file('RC.h5', read_from='RC.dat')
    out = du.load_RC_datfile('RC.dat', parse_dates=bool(s % 2))
    return [np.array(out[k]) for k in ('RC', 'RC_e', 'RC_i')]


def chaos(cp, s, b, c, static, sm, gsm, bd, cd, ce, pre, t, *rest):
    pos, rc = rest[:3], rest[3]
    keys = ('q10', 'q11', 's11')
    m = cp.CHAOS(b, 3, coeffs_tdep=c, coeffs_static=static, coeffs_sm=sm,
                 coeffs_gsm=gsm, breaks_delta={k: bd for k in keys},
                 coeffs_delta=dict(zip(keys, cd)), breaks_euler={'a': bd},
                 coeffs_euler={'a': ce},
                 meta=dict(params=dict(Euler_prerotation=pre[None]),
                           satellites=('a',)))
    n = [None, 1, 2][s % 3]
    out = [m.synth_coeffs_tdep(t, nmax=n, deriv=s % 2),
           m.synth_coeffs_static(nmax=n), m.synth_euler_angles(t, 'a'),
           m.synth_coeffs_gsm(t, nmax=n), m.synth_coeffs_sm(t, rc=rc)]
    out += m.synth_values_tdep(t, *pos, nmax=n)
    out += m.synth_values_static(*pos, nmax=n)
    out += m.synth_values_gsm(t, *pos, source=['internal', 'external'][s % 2])
    out += m.synth_values_sm(t, *pos, rc_e=rc, rc_i=rc)
    out += m(t, *pos, rc_e=rc, rc_i=rc)
    m.save_shcfile('tdep.shc', model='tdep')
    return out + [text_of('tdep.shc')]


def own(x):
    return np.sort(x, axis=None)


def others(case):
    """Function of the package, and the arrays handed over to it."""
    name, s = case['name'], case['salt']
    mu, cu = (harness.chaosmagpy().model_utils,
              harness.chaosmagpy().coordinate_utils)
    b = 40.*(s % 5) + np.cumsum(gen.spread(s, (4,), 50., 300.))
    t = b[0] + (b[-1] - b[0])*gen.spread(s + 1, (5,), -.2, 1.2)
    ti = b[0] + (b[-1] - b[0])*gen.spread(s + 1, (5,), .01, .99)
    pos = [gen.spread(s + 2, (5,), 6000., 7000.),
           gen.spread(s + 3, (5,), 0., 180.),
           gen.spread(s + 4, (5,), -180., 180.)]
    th = np.append(pos[1], [0., 180.])
    c = mixed(s + 5, 3, 3, 8)
    k = mu.augment_breaks(b, 3)
    base = [np.broadcast_to(x, (2, 3)).copy() for x in rot(s + 6).T]
    n = 1 + s % 3
    src = ['internal', 'external'][s % 2]
    return {
        'save_shcfile': (shc, [ti, mixed(s + 5, 5, 15)]),
        'save_shcfile#1': (shc, [ti[:1], mixed(s + 5, 15)]),
        'to_shc': (to_shc, [b, c]),
        'BaseModel': (base_model, [b, c, t]),
        'Base': (plain_base, [b, c, t]),
        'from_bspline': (lambda cp, s, k, c, t: cp.chaos.BaseModel
                         .from_bspline('m', k, c, 3).synth_coeffs(t),
                         [k, mixed(s, k.size - 3, 8), t]),
        'pp_from_bspline': (lambda cp, s, c, k: mu.pp_from_bspline(c, k, 3),
                            [mixed(s, k.size - 3, 8), k]),
        'augment_breaks': (lambda cp, s, b: mu.augment_breaks(b, n), [b]),
        'colloc_matrix': (lambda cp, s, x, k: mu.colloc_matrix(
            x, k, 3, deriv=s % 3), [np.append(ti, b), k]),
        'design_matrix': (lambda cp, s, *a: [
            x.toarray() if hasattr(x, 'toarray') else x
            for x in mu.design_matrix(a[0], 3, n, *a[1:], n_static=4,
                                      source=src)], [k, ti] + pos),
        'synth_from_pp': (lambda cp, s, *a: mu.synth_from_pp(
            a[0], 3, *a[1:], deriv=s % 3, source=src), [b, c, ti] + pos),
        'synth_values grid': (lambda cp, s, *a: mu.synth_values(
            *a, grid=True, source=src), [c[0, 0], np.array(6400. + s % 100),
                                         th, pos[2]]),
        'synth_values multi': (lambda cp, s, *a: mu.synth_values(
            *a, nmax=n, source=src), [mixed(s, 5, 15)] + pos),
        'power_spectrum axis': (lambda cp, s, c: mu.power_spectrum(
            c, axis=s % 2, source=src), [mixed(s, 8, 8)]),
        'synth_rotate_gauss': (lambda cp, s, *a: cu.synth_rotate_gauss(
            *a, scaled=bool(s % 2)), [t, own(np.abs(mixed(s, 3))),
                                      mixed(s, 3, 8, 3)
                                      + 1j*mixed(s + 1, 3, 8, 3)]),
        'rotate_gauss': (lambda cp, s, *a: cu.rotate_gauss(n, 2, *a), base),
        'dipole_to_vec': (lambda cp, s, d: cu.dipole_to_vec(d),
                          [fill(s, 3)]),
        'dipole_to_vec#2': (lambda cp, s, d: cu.dipole_to_vec(d),
                            [np.array([10., 200.])]),
        'basevectors_mag': (lambda cp, s, d: cu.basevectors_mag(d),
                            [fill(s, 3)]),
        'basevectors_gsm': (lambda cp, s, t, d: cu.basevectors_gsm(
            t, dipole=d), [t, fill(s, 3)]),
        'basevectors_sm': (lambda cp, s, t, d: cu.basevectors_sm(
            t, dipole=d), [t, fill(s, 3)]),
        'igrf_dipole': (lambda cp, s, e: cu.igrf_dipole(
            ['2015', '2010'][s % 2]), [b]),
        'q_response_1D': (lambda cp, s, *a: cu.q_response_1D(
            *a, n, kind=['quadratic', 'constant'][s % 2]),
            [10.**(3 + 5*np.abs(fill(s, 4))), 10.**fill(s + 1, 3),
             np.array([6371.2, 6000., 5000.])]),
        'q_response': (lambda cp, s, f: cu.q_response(f, n),
                       [np.append(1e-5*own(np.abs(fill(s, 3))), 0.)]),
        'plot_timeseries': (lines, [b[0] + own(np.abs(t)),
                                    mixed(s, 5, 3), mixed(s + 2, 5, 3)]),
        'plot_maps': (maps, [own(gen.spread(s, (4,), 5., 175.)),
                             own(gen.spread(s + 1, (5,), -175., 175.)),
                             mixed(s, 4, 5)]),
        'plot_power_spectrum': (spectrum, [np.abs(mixed(s, 6))]),
        'CHAOS': (chaos, [b, c, mixed(s + 7, 15), mixed(s + 8, 8),
                          mixed(s + 9, 8)*np.array([1, 0, 0]*2 + [0, 0]),
                          b[[0, 1, 3]], mixed(s + 10, 3, 1, 2),
                          mixed(s + 11, 1, 2, 3), mixed(s + 12, 3), t,
                          pos[0], pos[1], pos[2], mixed(s + 13, 5)]),
        'save_RC_h5file': (rc_file, [fill(s, 30, 3)]),
    }[name]


OTHERS = ['save_shcfile', 'save_shcfile#1', 'to_shc', 'BaseModel', 'Base',
          'from_bspline', 'pp_from_bspline', 'augment_breaks',
          'colloc_matrix', 'design_matrix', 'synth_from_pp',
          'synth_values grid', 'synth_values multi', 'power_spectrum axis',
          'synth_rotate_gauss', 'rotate_gauss', 'dipole_to_vec',
          'dipole_to_vec#2', 'basevectors_mag', 'basevectors_gsm',
          'basevectors_sm', 'igrf_dipole', 'q_response_1D', 'q_response',
          'plot_timeseries', 'plot_maps', 'plot_power_spectrum',
          'save_RC_h5file', 'CHAOS']


def s_others(st):
    return st.fixed_dictionaries(dict(
        name=st.sampled_from(OTHERS), salt=gen.salt(st),
        other=gen.salt(st)))


def c_others(case, ctx):
    """Arguments stay as they are, a repeated call gives the same, also if
    something else was computed and the first results were changed."""
    cp = harness.chaosmagpy()
    f, args = others(case)
    s, name = case['salt'], case['name']
    ctx.nontrivial()
    ctx.label(name)
    with harness.scratch():
        keep = [np.array(a, copy=True) for a in args]
        raw = f(cp, s, *args)
        first = results(raw)
        for i, (a, b) in enumerate(zip(args, keep)):
            require(same_bytes(a, b), f'{name}: argument {i} changed')
        for x in raw if isinstance(raw, (tuple, list)) else [raw]:
            if isinstance(x, np.ndarray) and x.flags.writeable and not any(
                    np.shares_memory(x, a) for a in args):
                x[...] = 0 if x.dtype.kind != 'M' else np.datetime64('2000')
        same(first, results(f(cp, s, *args)), f'{name}: repeated call')
        g, more = others(dict(case, salt=case['other']))
        g(cp, case['other'], *more)
        try:
            third = results(f(cp, s, *freeze(args)))
        except ValueError as err:
            if 'read-only' in str(err):
                raise harness.Violation(f'{name}: writes into its arguments')
            raise
        same(first, third, f'{name}: read-only arguments')
        raw = f(cp, s, *args)
        g(cp, case['other'], *more)
        same(first, results(raw), f'{name}: results after a later call')
        for i, (a, b) in enumerate(zip(args, keep)):
            require(same_bytes(a, b), f'{name}: argument {i} changed')


def s_integers(st):
    return st.fixed_dictionaries(dict(
        name=st.sampled_from([x for x in OTHERS if x not in (
            'rotate_gauss', 'save_RC_h5file')]), salt=gen.salt(st),
        dtypes=st.lists(st.sampled_from(DTYPES), min_size=1, max_size=4)))


def c_integers(case, ctx):
    """Whole numbers as integers of any kind give the same as floats."""
    cp = harness.chaosmagpy()
    f, args = others(case)
    s, name = case['salt'], case['name']
    if 'dipole' in name or name.startswith('basevectors'):
        args = [-1e4*np.abs(a) if a.shape == (3,) else a for a in args]
    args = [a if a.dtype.kind == 'c' else np.round(a) + 0. for a in args]
    if name == 'q_response_1D':
        args[1] = args[1] + 1.
    if name == 'design_matrix':
        args[3] = np.clip(args[3], 1., 179.)    # no poles, as documented
    ints = [a if a.dtype.kind == 'c' else whole_as(
        case['dtypes'][i % len(case['dtypes'])], a)
        for i, a in enumerate(args)]
    ctx.nontrivial()
    ctx.label(name, *case['dtypes'])
    with harness.scratch():
        close(results(f(cp, s, *ints)), results(f(cp, s, *args)),
              f'{name}: integers {[str(a.dtype) for a in ints]}')


# ------------------------------------------------- lists and dictionaries

def field_lists(salt, n, *ranges):
    return [gen.spread(salt + i, (n,), *r).tolist()
            for i, r in enumerate(ranges)]


def chaos_dicts(s):
    """Arguments of a model, all of them lists and dictionaries."""
    keys = [('q10', 'q11', 's11'), ('s11', 'q10', 'q11')][s % 2]
    b = np.array([0., 300., 700.])
    return dict(
        order=2, coeffs_tdep=fill(s, 2, 2, 15), coeffs_static=fill(s + 1, 24),
        coeffs_sm=fill(s + 2, 8), coeffs_gsm=fill(s + 3, 8)
        * np.array([1, 0, 0, 1, 0, 0, 0, 0.]),
        breaks_delta={k: b.copy() for k in keys},
        coeffs_delta={k: fill(s + 4 + i, 1, 2) for i, k in enumerate(keys)},
        breaks_euler={k: b.copy() for k in 'ba'},
        coeffs_euler={k: fill(s + 8 + i, 1, 2, 3)
                      for i, k in enumerate('ba')},
        breaks_cal={'b_1': b.copy()}, coeffs_cal={'b_1': fill(s, 1, 2, 9)},
        name='x', meta=dict(params=dict(Euler_prerotation=fill(s + 9, 2, 3)),
                            satellites=['b', 'a'], more=[3, 1, 2]))


def w_model(cp, s, breaks, kw):
    m = cp.CHAOS(breaks, **kw)
    t = np.array([100., 400.])
    return [m.synth_coeffs_tdep(t), m.synth_coeffs_sm(t, rc=[1., 2.]),
            m.synth_coeffs_sm(t, rc=1., source='internal'),
            m.synth_coeffs_gsm(t), m.synth_euler_angles(t, 'a'),
            m(t, 6400., 50., 10., rc_e=1., rc_i=2.)[0]]


def w_saved(cp, s, breaks, kw, sats):
    m = cp.CHAOS(breaks, **kw)
    if os.path.exists('c.mat'):
        os.remove('c.mat')
    m.save_matfile('c.mat')
    m.save_shcfile('c.shc', model=['tdep', 'static'][s % 2])
    k = cp.load_CHAOS_matfile('c.mat', satellites=sats)
    return [k.model_euler[x].coeffs for x in sats] + [k.model_tdep.coeffs]


def drawn(fn):
    """What the figure shows."""
    import matplotlib.pyplot as plt
    plt.close('all')
    fn()
    axes = plt.gcf().axes
    out = [np.array(list(plt.gcf().get_size_inches()))]
    out += [np.array([ord(x) for a in axes for x in a.get_title()])]
    out += [np.array(q.get_ydata(orig=True)) for a in axes
            for q in a.lines][-3:]
    plt.close('all')
    return out


def lists_of(case):
    """Function, and arguments which are lists or dictionaries."""
    name, s = case['name'], case['salt']
    cp = harness.chaosmagpy()
    mu, cu, du, pu = (cp.model_utils, cp.coordinate_utils, cp.data_utils,
                      cp.plot_utils)
    n = 2 + s % 3
    r, th, ph, t = field_lists(s, n, (6000., 8000.), (1., 179.),
                               (-180., 180.), (10., 690.))
    dip = (-3e4*(1.2 + fill(s + 20, 3))).tolist()
    series = [(-3e4*(1.2 + fill(s + 20 + i, 3))).tolist() for i in range(n)]
    words = [['tdep', 'static'], ['static', 'tdep', 'gsm'], ['sm', 'static'],
             ['gsm', 'tdep']][s % 4]
    src = ['internal', 'external'][s % 2]
    ref_ = ['gsm', 'sm', 'mag'][s % 3]
    breaks = [0., 300., 700.]
    titles = [['b', 'a'], ['x', 'yz']][s % 2]
    model = chaos_dicts(s)
    basic = cp.chaos.BaseModel('m', breaks, 2, model['coeffs_tdep'])
    base = rot(s + 6).T.tolist()
    return {
        'synth_values': (lambda *a: mu.synth_values(*a, source=src),
                         [fill(s, n, 8).tolist(), r, th, ph]),
        'synth_values grid': (lambda *a: mu.synth_values(*a, grid=True),
                              [fill(s, 8).tolist(), 6400., th, ph]),
        'design_gauss': (lambda *a: mu.design_gauss(*a, 2), [r, th, ph]),
        'legendre_poly': (lambda th: mu.legendre_poly(3, th), [th]),
        'power_spectrum': (lambda c: mu.power_spectrum(c),
                           [fill(s, 8).tolist()]),
        'degree_correlation': (mu.degree_correlation,
                               [fill(s, 8).tolist(), fill(1, 8).tolist()]),
        'pp_from_bspline': (lambda c, k: mu.pp_from_bspline(c, k, 2),
                            [fill(s, 3, 2).tolist(), [0, 0, 4., 7., 7.]]),
        'augment_breaks': (lambda b: mu.augment_breaks(b, 3), [breaks]),
        'colloc_matrix': (lambda x, k: mu.colloc_matrix(x, k, 2),
                          [sorted(t, reverse=bool(s % 2)),
                           [0., 0., 300., 700., 700.]]),
        'synth_from_pp': (lambda *a: mu.synth_from_pp(a[0], 2, *a[1:]),
                          [breaks, model['coeffs_tdep'].tolist(), t, r, th,
                           ph]),
        'dipole_to_vec': (cu.dipole_to_vec, [dip]),
        'dipole_to_vec angles': (cu.dipole_to_vec, [[10. + s % 50, 280.]]),
        'dipole_to_vec series': (cu.dipole_to_vec, [np.array(series)]),
        'dipole_to_vec tuple': (lambda a, b: cu.dipole_to_vec((a, b)),
                                [th, ph]),
        'basevectors_gsm': (lambda t, d: cu.basevectors_gsm(t, dipole=d),
                            [np.array(t), dip]),
        'basevectors_sm series': (lambda t, d: cu.basevectors_sm(
            t, dipole=d), [np.array(t), np.array(series)]),
        'basevectors_gsm series': (lambda t, d: cu.basevectors_gsm(
            t, dipole=d), [np.array(t), np.array(series)]),
        'basevectors_mag': (cu.basevectors_mag, [dip]),
        'rotate_gauss': (lambda *a: cu.rotate_gauss(2, 2, *a),
                         [np.array(x) for x in base]),
        'transform_points': (lambda th, ph, t, d: cu.transform_points(
            th, ph, t, reference=ref_, dipole=d), [th, ph, t, dip]),
        'transform_points series': (lambda th, ph, t, d: cu.transform_points(
            th, ph, t, reference=['gsm', 'sm'][s % 2], dipole=d),
            [th, ph, t, np.array(series)]),
        'transform_vectors': (lambda *a: cu.transform_vectors(
            *a[:5], reference=ref_, dipole=a[5]),
            [th, ph, fill(s, n).tolist(), fill(s + 1, n).tolist(), t, dip]),
        'synth_rotate_gauss': (lambda t, f, x: cu.synth_rotate_gauss(t, f, x),
                               [t, [0., 1.], (fill(s, 2, 3, 3) + 1j).tolist()
                                ]),
        'q_response': (lambda f: cu.q_response(f, 2), [[1e-6, 1e-5]]),
        'q_response_1D': (lambda *a: cu.q_response_1D(*a, 1),
                          [np.array([1e5, 1e6]), [1e-2, 1., 10.],
                           [6371.2, 6000., 5000.]]),
        'mjd2000': (lambda *a: du.mjd2000(*a),
                    [[2000 + i for i in range(n)], [1 + i for i in range(n)]]
                    ),
        'timestamp': (du.timestamp, [np.array(t)]),
        'mjd_to_dyear': (du.mjd_to_dyear, [np.array(t)]),
        'dyear_to_mjd': (du.dyear_to_mjd, [2000. + np.array(t)/365.]),
        'save_shcfile': (lambda t, c: (du.save_shcfile(
            t, c, filepath='l.shc'), text_of('l.shc'))[1],
            [sorted(t), fill(s, n, 3).tolist()]),
        'BaseModel': (lambda b, c, meta: cp.chaos.BaseModel(
            'm', b, 2, c, meta=meta).synth_coeffs(100.),
            [breaks, model['coeffs_tdep'], dict(a=[3, 1], b=dict(c=2.))]),
        'from_bspline': (lambda k, c, meta: cp.chaos.BaseModel.from_bspline(
            'm', k, c, 2, meta=meta).synth_coeffs(100.),
            [[0., 0., 300., 700., 700.], fill(s, 3, 8), dict(a=[3, 1])]),
        'BaseModel.synth_values': (basic.synth_values, [t, r, th, ph]),
        'CHAOS': (lambda b, kw: w_model(cp, s, b, kw),
                  [np.array(breaks), model]),
        'save_matfile': (lambda b, kw, x: w_saved(cp, s, b, kw, x),
                         [np.array(breaks), model, ['b', 'a']]),
        'CHAOS call': (lambda kw, x, *a: cp.CHAOS(np.array(breaks), **kw)(
            *a, source_list=x), [model, words, t, r, th, ph, [1.]*n, [2.]*n]),
        'plot_timeseries': (lambda t, size, lay, ti, *y: drawn(
            lambda: pu.plot_timeseries(t, *y, figsize=size, layout=lay,
                                       titles=ti)),
            [np.array(sorted(t)), [5., 4.], [2, 1], titles]
            + [fill(s + i, n) for i in range(2)]),
        'plot_maps': (lambda a, b, size, lay, ti, *y: drawn(
            lambda: pu.plot_maps(a, b, *y, figsize=size, layout=lay,
                                 titles=ti)),
            [np.linspace(5., 175., 4), np.linspace(-170., 170., 5), [5., 4.],
             [1, 2], titles] + [fill(s + i, 4, 5) for i in range(2)]),
        'plot_power_spectrum': (lambda x, size: drawn(
            lambda: pu.plot_power_spectrum(x, figsize=size, titles='a')),
            [np.abs(fill(s, 5)), [4., 3.]]),
        'BaseModel.plot_timeseries': (lambda *a: drawn(
            lambda: basic.plot_timeseries(6400., 50., 10., layout=a[0],
                                          titles=a[1])),
            [[3, 1], titles + ['c']]),
        'CHAOS.plot_timeseries_tdep': (lambda kw, *a: drawn(
            lambda: cp.CHAOS(np.array(breaks), **kw).plot_timeseries_tdep(
                6400., 50., 10., layout=a[0], titles=a[1])),
            [model, [1, 3], titles + ['c']]),
        'settings': (lambda d: (cp.basicConfig.__setitem__(
            'params.dipole', d), np.array(cp.basicConfig['params.dipole']))
            [1], [dip]),
    }[name]


LISTS = ['synth_values', 'synth_values grid', 'design_gauss',
         'legendre_poly', 'power_spectrum', 'degree_correlation',
         'pp_from_bspline', 'augment_breaks', 'colloc_matrix',
         'synth_from_pp', 'dipole_to_vec', 'dipole_to_vec angles',
         'dipole_to_vec series', 'dipole_to_vec tuple', 'basevectors_gsm',
         'basevectors_sm series', 'basevectors_gsm series', 'basevectors_mag',
         'rotate_gauss', 'transform_points', 'transform_points series',
         'transform_vectors', 'synth_rotate_gauss', 'q_response',
         'q_response_1D', 'mjd2000', 'timestamp', 'mjd_to_dyear',
         'dyear_to_mjd', 'save_shcfile', 'BaseModel', 'from_bspline',
         'BaseModel.synth_values', 'CHAOS', 'save_matfile', 'CHAOS call',
         'plot_timeseries', 'plot_maps', 'plot_power_spectrum',
         'BaseModel.plot_timeseries', 'CHAOS.plot_timeseries_tdep',
         'settings']


def alike(a, b):
    """The same kind of containers with the same content in the same order."""
    if isinstance(a, dict):
        return (isinstance(b, dict) and list(a) == list(b)
                and all(alike(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b)
                and all(alike(x, y) for x, y in zip(a, b)))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and same_bytes(a, b)
    return type(a) is type(b) and a == b


def c_lists(case, ctx):
    """Lists and dictionaries handed over stay as they are, with all they
    contain, and the call can be repeated with them."""
    import copy
    harness.chaosmagpy()
    f, args = lists_of(case)
    name = case['name']
    ctx.nontrivial()
    ctx.label(name)
    with harness.scratch():
        keep = copy.deepcopy(args)
        try:
            first = results(f(*args))
        except (ValueError, TypeError, AttributeError, AssertionError) as e:
            # not everything takes lists, but then it leaves them alone
            ctx.label('refused: ' + name)
            first = type(e)
        for i, (a, b) in enumerate(zip(args, keep)):
            require(alike(a, b), f'{name}: argument {i} is {a!s:.200}, was '
                    f'{b!s:.200}')
        harness.reset_config()
        if isinstance(first, type):
            harness.rejects(name, f, *keep, exc=first)
        else:
            same(results(f(*keep)), first, f'{name}: repeated call')


def s_lists(st):
    return st.fixed_dictionaries(dict(name=st.sampled_from(LISTS),
                                      salt=gen.salt(st)))


# ------------------------------------------------------------- histories

def build(cp, salt):
    order = [4, 4, 4, 6, 1, 3, 2, 5, 7][salt % 9]
    case = dict(order=order, pieces=3, dim=15, salt=salt,
                uniform=salt % 4 != 0)
    breaks, coeffs = pp(case)
    breaks = breaks + fill(salt + 11)[()]*(salt % 3)
    d = np.array([breaks[0], breaks[1], breaks[-1]])
    keys = ('q10', 'q11', 's11')
    return cp.CHAOS(
        breaks, order, coeffs_tdep=coeffs, coeffs_static=fill(salt + 1, 24),
        coeffs_sm=fill(salt + 2, 8), coeffs_gsm=fill(salt + 3, 8)
        * np.array([1, 0, 0, 1, 0, 0, 0, 0.]),
        breaks_delta={k: d.copy() for k in keys},
        coeffs_delta={k: fill(salt + 4 + i, 1, 2)
                      for i, k in enumerate(keys)},
        breaks_euler={'a': d.copy(), 'b': d.copy()},
        coeffs_euler={k: fill(salt + 8 + i, 1, 2, 3)
                      for i, k in enumerate('ab')},
        meta=dict(params=dict(Euler_prerotation=fill(salt + 10, 2, 3)),
                  satellites=('a', 'b')))


OPS = ['tdep', 'static', 'gsm', 'sm', 'euler', 'call', 'vtdep', 'vstatic',
       'vgsm', 'vsm', 'spectrum', 'pp', 'shc', 'mat', 'plot', 'setting',
       'fail']


def s_history(st):
    return st.fixed_dictionaries(dict(
        salt=st.integers(0, 1000), ops=st.lists(st.fixed_dictionaries(dict(
            op=st.sampled_from(OPS), i=st.integers(0, 10**6))),
            min_size=2, max_size=8)))


def perform(cp, m, o):
    """One call. The results are arrays."""
    i, op = o['i'], o['op']
    b = m.model_tdep.breaks
    shape = [(), (3,), (2, 2)][i % 3]
    lo, hi = (0., 1.) if (i // 3) % 3 else (-.1, 1.1)
    t = b[0] + (b[-1] - b[0])*gen.spread(i, shape, lo, hi)
    pos = (gen.spread(i + 1, shape, 6000., 7000.),
           gen.spread(i + 2, shape, 0., 180.),
           gen.spread(i + 3, shape, -180., 180.))
    n = [None, 1, 2][(i // 9) % 3]
    src = ['external', 'internal'][(i // 27) % 2]
    d = (i // 54) % 3
    ex = ['linear', 'constant', 'spline', 'off', 'quadratic'][(i // 7) % 5]
    if op == 'tdep':
        return m.synth_coeffs_tdep(t, nmax=n, deriv=d, extrapolate=ex)
    if op == 'static':
        return m.synth_coeffs_static(nmax=n)
    if op == 'gsm':
        return m.synth_coeffs_gsm(t, nmax=n, source=src)
    if op == 'sm':
        return m.synth_coeffs_sm(t, nmax=n, source=src, rc=t)
    if op == 'euler':
        return m.synth_euler_angles(t, 'ab'[i % 2])
    if op == 'call':
        return m(t, *pos, rc_e=np.ones(shape), rc_i=t)
    if op == 'vtdep':
        return m.synth_values_tdep(t, *pos, nmax=n, deriv=d, extrapolate=ex)
    if op == 'vstatic':
        return m.synth_values_static(*pos, nmax=n)
    if op == 'vgsm':
        return m.synth_values_gsm(t, *pos, nmax=n)
    if op == 'vsm':
        return m.synth_values_sm(t, *pos, nmax=n, rc_e=t, rc_i=t)
    if op == 'spectrum':
        return m.model_tdep.power_spectrum(t, nmax=n, deriv=d)
    if op == 'pp':
        x = m.model_tdep.to_ppdict()
        return x['breaks'], x['coefs'], x['order'], x['pieces'], x['dim']
    if op == 'shc':
        f = f'{"static" if i % 2 else "tdep"}.shc'
        m.save_shcfile(f, model=f[:-4], leap_year=bool(i // 2 % 2))
        return cp.data_utils.load_shcfile(f)[:2]
    if op == 'mat':
        if os.path.exists('m.mat'):
            os.remove('m.mat')
        m.save_matfile('m.mat')
        k = cp.load_CHAOS_matfile('m.mat', satellites=['a', 'b'])
        return (k.model_tdep.coeffs, k.model_static.coeffs, k.coeffs_sm,
                k.coeffs_gsm, k.coeffs_delta['q10'], k.coeffs_delta['s11'],
                k.model_euler['b'].coeffs)
    if op == 'plot':
        import matplotlib.pyplot as plt
        plt.close('all')
        m.model_tdep.plot_power_spectrum(float(np.ravel(t)[0]), nmax=n)
        y = plt.gcf().axes[0].lines[0].get_ydata(orig=True)
        plt.close('all')
        return np.array(y)
    if op == 'setting':
        with cp.basicConfig.context('params.r_surf', 6000. + i % 900):
            return m.synth_values_tdep(t, *pos)
    if op == 'fail':
        out = []
        for f in (lambda: m.synth_euler_angles(t, 'c'),
                  lambda: m.synth_values_tdep(t, 6400., 181., 0.),
                  lambda: m.synth_coeffs_gsm(t, source='x'),
                  lambda: m(np.zeros(2), np.full(3, 6400.), 1., 1.)):
            try:
                f()
                out.append(0.)
            except Exception:
                out.append(1.)
        return np.array(out)


def c_history(case, ctx):
    cp = harness.chaosmagpy()
    m = build(cp, case['salt'])
    ctx.nontrivial(len(set(o['op'] for o in case['ops'])) > 1)
    earlier = []
    with harness.scratch():
        for k, o in enumerate(case['ops']):
            ctx.label(o['op'])
            raw = perform(cp, m, o)
            got = results(raw)
            if o['i'] % 2:       # keep them
                earlier.append((raw, got, f'results of call {k} ({o["op"]}) '
                                'after later calls'))
            else:                # results belong to the caller
                for x in raw if isinstance(raw, (tuple, list)) else [raw]:
                    if isinstance(x, np.ndarray) and x.flags.writeable:
                        x[...] = -7.
            new = results(perform(cp, build(cp, case['salt']), o))
            same(got, new, f'call {k} ({o["op"]}) after '
                 f'{[q["op"] for q in case["ops"][:k]]}')
        for raw, got, what in earlier:
            same(results(raw), got, what)
    a, b = m, build(cp, case['salt'])
    for x, y, what in (
            (a.model_tdep.coeffs, b.model_tdep.coeffs, 'coeffs_tdep'),
            (a.model_tdep.breaks, b.model_tdep.breaks, 'breaks'),
            (a.model_static.coeffs, b.model_static.coeffs, 'coeffs_static'),
            (a.coeffs_sm, b.coeffs_sm, 'coeffs_sm'),
            (a.coeffs_gsm, b.coeffs_gsm, 'coeffs_gsm'),
            (a.model_static.breaks, b.model_static.breaks, 'static breaks'),
            *((a.breaks_delta[k], b.breaks_delta[k], f'breaks_delta {k}')
              for k in a.breaks_delta),
            *((a.coeffs_delta[k], b.coeffs_delta[k], f'coeffs_delta {k}')
              for k in a.coeffs_delta),
            *((a.model_euler[k].breaks, b.model_euler[k].breaks,
               f'Euler breaks {k}') for k in a.model_euler),
            *((a.model_euler[k].coeffs, b.model_euler[k].coeffs,
               f'Euler angles {k}') for k in a.model_euler)):
        agree(x, y, 0., f'{what} of the model after the calls')


FACETS = [
    Facet('pure', s_pure, c_pure, 1200),
    Facet('kinds', s_pure, c_kinds, 1200),
    Facet('elements', s_elements, c_elements, 1200),
    Facet('others', s_others, c_others, 400),
    Facet('integers', s_integers, c_integers, 400),
    Facet('lists', s_lists, c_lists, 300),
    Facet('history', s_history, c_history, 160, 3000),
    history.facet('C27', 200, 'mix', mix=True),
    history.forms(700),
]
