import os
import warnings
import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require
import gen
import history
import large
import ref
from c01_synthesis import expected

PROPERTY = 'C21'
SCALE = 4         # times the cases of each facet in quick runs
RULE = ('Random coefficients in GSM and SM frames, random spectra of the '
        'rotation matrices (or the built-in ones), random offsets in bins, '
        'RC-indices, times inside and outside, truncations, sources and '
        'positions. Non-trivial: several times or positions.')
ASSUMPTIONS = ['The spectrum files are data: they are compared with the frames '
               'of C08/C09 only within the accuracy of 20 frequencies '
               '(facet frames).']


def spectrum_file(case, name, folder):
    """A random file of rotation matrices in place of the built-in one."""
    cp = harness.chaosmagpy()
    n = case['n']*(case['n'] + 2)
    k, s = case['k'], case['salt'] + (50 if name == 'SM' else 0)
    d = dict(
        frequency=np.abs(np.round(4*fill(s, k, n, n))),
        spectrum=fill(s + 1, k, n, n) + 1j*fill(s + 2, k, n, n),
        frequency_ind=np.abs(np.round(4*fill(s + 3, k, n, n))),
        spectrum_ind=fill(s + 4, k, n, n) + 1j*fill(s + 5, k, n, n),
        scaled=bool(case['scaled']),
        dipole=cp.basicConfig['params.dipole'])
    f = os.path.join(folder, f'{name}.npz')
    np.savez(f, **d)
    cp.basicConfig[f'file.{name}_spectrum'] = f


def matrices(name, time):
    """Rotation matrix and induced matrix from the file in use."""
    cp = harness.chaosmagpy()
    out = []
    with np.load(cp.basicConfig[f'file.{name}_spectrum']) as f:
        for x in ('', '_ind'):
            fr, sp = f['frequency' + x], f['spectrum' + x]
            t = np.asarray(time, float)[..., None, None]
            M = np.zeros(t.shape[:-2] + sp.shape[1:])
            for a, b in zip(fr, sp):
                w = 1. if f['scaled'] else np.where(a > 0, 2., 1.)
                M = M + w*(b.real*np.cos(2*np.pi*a*t)
                           - b.imag*np.sin(2*np.pi*a*t))
            out.append(M)
    return out


def apply(M, c):
    return np.sum(M*c[..., None, :], axis=-1)


def gsm_coeffs(time, coeffs):
    M, Mi = matrices('GSM', time)
    return dict(external=apply(M, coeffs), internal=apply(Mi, coeffs))


def offsets(case):
    """Breaks and values of the offsets of q10, q11 and s11."""
    s = case['salt'] + 300
    breaks, values = {}, {}
    for i, key in enumerate(('q10', 'q11', 's11')):
        n = 1 + (case['salt'] + i) % 4 + (40 if case['salt'] % 31 == 3 else 0)
        breaks[key] = np.sort(gen.spread(s + i, (n + 1,), -900., 900.))
        values[key] = 10*fill(s + 10 + i, 1, n)
    return breaks, values


def offset_at(breaks, values, time):
    out = []
    for key in ('q10', 'q11', 's11'):
        i = np.searchsorted(breaks[key], time, side='right') - 1
        i = np.clip(i, 0, len(breaks[key]) - 2)
        out.append(values[key][0][i])
    return np.stack(out, -1)


def sm_coeffs(time, coeffs, breaks, values, rc_e, rc_i):
    """Disturbance of the ring current scaled by RC, plus offset; only the
    offset and the higher degrees induce through the spectrum, the induced
    part of the disturbance is given by the internal RC index."""
    time = np.asarray(time, float)
    M, Mi = matrices('SM', time)
    d = offset_at(breaks, values, time)
    out = {}
    full = np.broadcast_to(coeffs, time.shape + coeffs.shape).copy()
    ind = full.copy()
    full[..., :3] = np.asarray(rc_e)[..., None]*coeffs[:3] + d
    ind[..., :3] = d
    out['external'] = apply(M, full)
    out['internal'] = apply(Mi, ind)
    out['internal'][..., :3] += apply(
        M[..., :3, :3], np.asarray(rc_i)[..., None]*coeffs[:3])
    return out


def common(st, **more):
    return st.fixed_dictionaries(dict(
        n=gen.size(st, 3, 5), k=gen.size(st, 4, 12), scaled=st.booleans(),
        builtin=st.sampled_from([True, False, False]), salt=gen.salt(st),
        span=st.sampled_from([400., 5000.]),
        nmax=st.one_of(st.none(), st.none(), st.integers(1, 4)),
        source=st.sampled_from([None, 'external', 'internal', 'all', None,
                                'internal']), **more))


def prepare(case, d):
    if case['builtin']:
        case['n'] = 2
    else:
        spectrum_file(case, 'GSM', d)
        spectrum_file(case, 'SM', d)
    s, n = case['salt'], case['n']*(case['n'] + 2)
    return 20*fill(s + 100, n), fill(s + 101, n)


def options(case, *extra):
    return {k: case[k] for k in ('nmax', 'source') + extra
            if case.get(k) is not None}


def check_values(case, out, coeffs, r, th, ph, what, r_ref=ref.R_REF):
    """coeffs: both sources, already truncated."""
    e, scale = 0., 0.
    src = case['source'] or 'all'
    for key in ('external', 'internal') if src == 'all' else (src,):
        n = int(np.sqrt(coeffs[key].shape[-1] + 1)) - 1
        a, b = expected(coeffs[key], r, th, ph, 1, n, n, key, r_ref)
        e = [x + y for x, y in zip(e, a)] if src == 'all' and \
            key == 'internal' else list(a)
        _, b = expected(np.full(coeffs[key].shape, 2000.), r, th, ph, 1, n, n,
                        key, r_ref)
        scale = scale + b
    for name, a, b in zip(('radius', 'theta', 'phi'), out, e):
        agree(a, b, 1e-11, f'{what} B_{name}', scale=scale)


def s_coeffs(st):
    return common(st, dims=gen.dims(st),
                  rc=st.sampled_from(['scalar', 'array', 'array', 'list',
                                      'zero', 'zeros', 'whole', 'gaps']),
                  have=st.sampled_from(['tdep', 'static', 'none']),
                  parts=st.sampled_from(['gsm', 'sm', 'sm']))


def make_model(case, gsm, sm, **kw):
    cp = harness.chaosmagpy()
    b, v = offsets(case)
    have = case.get('have', 'none')
    if have == 'tdep':
        kw['coeffs_tdep'] = np.ones((1, 1, 3))
    elif have == 'static':
        kw['coeffs_static'] = np.ones(3)
    return cp.CHAOS(np.array([-500., 800.]), 1, coeffs_sm=sm, coeffs_gsm=gsm,
                    breaks_delta=b, coeffs_delta=v, **kw), b, v


def told(fn, *args, **kw):
    """The result, and the warnings meant for the user."""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        out = fn(*args, **kw)
    return out, [w for w in log if w.category is UserWarning]


def c_coeffs(case, ctx):
    with harness.scratch() as d:
        gsm, sm = prepare(case, d)
        m, b, v = make_model(case, gsm, sm)
        time = gen.spread(case['salt'] + 7, tuple(case['dims']),
                          -case['span'], case['span'])
        if case['source'] == 'all':
            case['source'] = 'external'
        src = case['source'] or 'external'
        kw = options(case)
        n = min(case['nmax'] or case['n'], case['n'])
        ctx.nontrivial(time.size > 1)
        ctx.label(case['parts'], f'source={case["source"]}', case['have'],
                  'built-in' if case['builtin'] else f'n={case["n"]}',
                  f'rc={case["rc"]}')
        if case['parts'] == 'gsm':
            e = gsm_coeffs(time, gsm)[src]
            limits = (-500., 800.) if case['have'] != 'none' else (
                -np.inf, np.inf)
            out, log = told(m.synth_coeffs_gsm, time, **kw)
        else:
            rc = 100*fill(case['salt'] + 8, *(
                () if case['rc'] in ('scalar', 'zero') else time.shape))
            if 'zero' in case['rc']:
                rc = np.where(rc > 0, 0., rc) if case['rc'] == 'zeros' else 0.
            elif case['rc'] == 'whole':
                rc = np.round(rc/10).astype(int)
            elif case['rc'] == 'gaps':      # no index at some of the times
                rc = np.where(rc > 30., np.nan, rc)
            e = sm_coeffs(time, sm, b, v, rc, rc)[src]
            rc = rc.tolist() if case['rc'] == 'list' else rc
            limits = (max(x[0] for x in b.values()),
                      min(x[-1] for x in b.values()))
            out, log = told(m.synth_coeffs_sm, time, rc=rc, **kw)
        beyond = np.any((time < limits[0]) | (time > limits[1]))
        ctx.label(f'beyond={bool(beyond)}')
        if not (case['nmax'] or 0) > case['n']:
            require(beyond == bool(log), f'{len(log)} warnings, times beyond '
                    f'of the modelled period: {bool(beyond)}')
        e = e[..., :n*(n + 2)]
        if case['parts'] == 'sm' and case['rc'] == 'gaps':
            # nothing is known for these times, and all of the others are
            gap = np.isnan(rc)
            require(np.all(np.any(np.isnan(out), axis=-1) == gap),
                    'times without an index have to be marked by NaN')
            out, e = (np.where(np.isnan(e), 0., x) for x in (out, e))
        agree(out, e, 1e-10, f'{case["parts"]} coefficients', scale=2000.)


def s_values(st):
    return common(st, shapes=gen.broadcast_shapes(st, 4),
                  parts=st.sampled_from(['gsm', 'sm', 'sm']),
                  grid=st.sampled_from([None, False, True]),
                  have=st.sampled_from(['static', 'none']),
                  r_surf=st.sampled_from([None, None, 6371., 3485.]))


def c_values(case, ctx):
    with harness.scratch() as d:
        gsm, sm = prepare(case, d)
        m, b, v = make_model(case, gsm, sm)
        if case.get('r_surf'):
            harness.chaosmagpy().basicConfig['params.r_surf'] = case['r_surf']
        sh, s = [tuple(x) for x in case['shapes']], case['salt']
        time = gen.spread(s + 7, sh[0], -case['span'], case['span'])
        r = gen.spread(s + 8, sh[1], 6000., 7500.)
        th = gen.spread(s + 9, sh[2], 0., 180.)
        ph = gen.spread(s + 10, sh[3], -180., 360.)
        if case['grid']:
            r = np.ravel(r)[0]
            th, ph = np.ravel(th)[:60], np.ravel(ph)[:60]
            # one time, or several in front of the grid
            time = np.ravel(time)[:4].reshape(-1, 1, 1) if s % 2 else \
                np.ravel(time)[0]
        kw = options(case, 'grid')
        n = min(case['nmax'] or case['n'], case['n'])
        rc_e = 100*fill(s + 11, *np.shape(time))
        rc_i = 100*fill(s + 12, *np.shape(time))
        ctx.label(case['parts'], f'source={case["source"]}',
                  f'grid={case["grid"]}')
        if case['parts'] == 'gsm':
            c = gsm_coeffs(time, gsm)
            out = m.synth_values_gsm(time, r, th, ph, **kw)
        else:
            c = sm_coeffs(time, sm, b, v, rc_e, rc_i)
            out = m.synth_values_sm(time, r, th, ph, rc_e=rc_e, rc_i=rc_i,
                                    **kw)
        ctx.nontrivial(np.size(out[0]) > 1)
        c = {k: x[..., :n*(n + 2)] for k, x in c.items()}
        if case['grid']:
            th, ph = np.meshgrid(th, ph, indexing='ij')
        check_values(case, out, c, r, th, ph, case['parts'],
                     case.get('r_surf') or ref.R_REF)


def s_frames(st):
    return st.fixed_dictionaries(dict(
        t=gen.f(st, 0., 2900.), ref=st.sampled_from(['GSM', 'SM']),
        salt=gen.salt(st)))


def c_frames(case, ctx):
    """The built-in spectra describe the rotation of the frames."""
    cp = harness.chaosmagpy()
    cu = cp.coordinate_utils
    t = case['t'] + np.arange(3.)/7
    c = np.zeros(8)
    c[[0, 3] if case['ref'] == 'GSM' else slice(None)] = fill(
        case['salt'], 2 if case['ref'] == 'GSM' else 8)
    base = getattr(cu, f'basevectors_{case["ref"].lower()}')(t)
    exact = np.matmul(cu.rotate_gauss(2, 2, *base), c)
    b = {k: np.array([0., 4e3]) for k in ('q10', 'q11', 's11')}
    v = {k: np.full((1, 1), c[i]) for i, k in enumerate(b)}
    m = cp.CHAOS(np.array([0., 4000.]), coeffs_static=np.ones(3),
                 coeffs_sm=c, coeffs_gsm=c, breaks_delta=b, coeffs_delta=v)
    ctx.nontrivial()
    ctx.label(case['ref'])
    if case['ref'] == 'GSM':
        out = m.synth_coeffs_gsm(t)
    else:
        out = m.synth_coeffs_sm(t, rc=0.)
    agree(out, exact, .1, f'{case["ref"]} to GEO',
          scale=np.linalg.norm(c))


def s_bad(st):
    return st.fixed_dictionaries(dict(
        what=st.sampled_from(['source', 'dipole', 'word']),
        part=st.sampled_from(['gsm', 'sm']), i=st.integers(0, 2),
        word=st.sampled_from(['both', 'ext', '', 'External', 'geo']),
        t=gen.f(st, -400., 400.)))


def c_bad(case, ctx):
    cp = harness.chaosmagpy()
    case['salt'] = case['i']
    m, _, _ = make_model(case, np.ones(8), np.ones(8))
    part, t = case['part'], case['t']
    kw = dict(rc=1.) if part == 'sm' else {}
    kv = dict(rc_e=1., rc_i=1.) if part == 'sm' else {}
    fc = getattr(m, f'synth_coeffs_{part}')
    fv = getattr(m, f'synth_values_{part}')
    ctx.nontrivial()
    ctx.label(case['what'])
    if case['what'] == 'dipole':
        dip = np.array(cp.basicConfig['params.dipole'])
        dip[case['i']] += 1.
        cp.basicConfig['params.dipole'] = dip
        for src in ('external', 'internal'):
            rejects('other dipole', fc, t, source=src, **kw)
            rejects('other dipole', fv, t, 6400., 50., 10., source=src, **kv)
    else:
        rejects('unknown source', fc, t, source=case['word'], **kw,
                exc=ValueError)
        rejects('unknown source', fv, t, 6400., 50., 10., source=case['word'],
                **kv, exc=ValueError)



def _large(part, values, source):
    def make(cp, salt, n):
        m, _, _ = make_model(dict(salt=salt), 20*fill(salt, 8),
                             fill(salt + 1, 8))
        t = gen.spread(salt + 2, (n,), -900., 900.)
        rc = 100*fill(salt + 3, n)
        x = (gen.spread(salt + 4, (n,), 6000., 7500.),
             gen.spread(salt + 5, (n,), 0., 180.),
             gen.spread(salt + 6, (n,), -180., 360.))
        fn = getattr(m, f'synth_{"values" if values else "coeffs"}_{part}')
        if part == 'gsm':
            return (lambda *a: fn(*a, source=source),
                    (t,) + (x if values else ()), 1e4)
        if values:
            return (lambda *a: fn(*a[:4], rc_e=a[4], rc_i=a[5],
                                  source=source), (t,) + x + (rc, rc/3), 1e4)
        return lambda t, rc: fn(t, rc=rc, source=source), (t, rc), 1e4
    return make


LARGE = {f'{p} {s} {"values" if v else "coeffs"}': _large(p, v, s)
         for p in ('gsm', 'sm') for v in (False, True)
         for s in ('external', 'internal')}


FACETS = [
    Facet('coeffs', s_coeffs, c_coeffs, 700),
    Facet('values', s_values, c_values, 600),
    Facet('frames', s_frames, c_frames, 300),
    Facet('bad', s_bad, c_bad, 40),
    large.facet(LARGE, 24, [1031, 4099]),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C21', 160),
]
