import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require
import gen
import history
import large
import ref
from c01_synthesis import expected
from c15_timedep import pp
from c16_extrapolation import KEY, model_at

PROPERTY = 'C17'
SCALE = 6         # times the cases of each facet in quick runs
RULE = ('Spline models, sources, truncations, derivatives, extrapolation '
        'modes and broadcastable arrays of times and positions are drawn, for '
        'BaseModel and for the parts of CHAOS. Non-trivial: several times or '
        'positions and more than one degree.')
ASSUMPTIONS = ['Times are at least 1e-6 of the model interval away from its '
               'ends if derivatives are requested.']


def setup(case, cp):
    case['dim'] = case['deg']*(case['deg'] + 2)
    breaks, coeffs = pp(case)
    return breaks, coeffs


def s_values(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 6), pieces=gen.size(st, 4, 300),
        deg=gen.size(st, 5, 24), salt=gen.salt(st), uniform=st.booleans(),
        shapes=gen.broadcast_shapes(st, 4),
        nmax=st.one_of(st.none(), st.integers(1, 6)),
        deriv=st.one_of(st.none(), st.integers(0, 3)),
        source=st.sampled_from([None, 'internal', 'external']),
        mode=st.sampled_from([None, 'linear', 'spline', 'constant', 'off',
                              'quadratic']),
        outside=st.booleans(), narrow=st.sampled_from(
            [None, None, None, 1., 1e-2]), via=st.sampled_from(
            ['model', 'chaos', 'model', 'static', 'grid', 'static grid',
             'chaos grid']),
        grid=st.tuples(st.integers(1, 4), st.integers(1, 5)),
        r_surf=st.sampled_from([None, None, 6371.0])))


def options(kw, *names):
    return {k: v for k, v in kw.items() if k in names}


def c_values(case, ctx):
    cp = harness.chaosmagpy()
    via = case['via']
    breaks, coeffs = setup(case, cp)
    sh = [tuple(s) for s in case['shapes']]
    s = case['salt']
    lo, hi = (-.3, 1.3) if case['outside'] else (1e-5, 1 - 1e-5)
    t = breaks[0] + (breaks[-1] - breaks[0])*gen.spread(s + 1, sh[0], lo, hi)
    if case.get('narrow'):      # times within a day or minutes
        t = (breaks[0] + breaks[-1])/2 + .3 + case['narrow']*gen.spread(
            s + 1, sh[0], 0., .9)
    r = gen.spread(s + 2, sh[1], 5000., 9000.)
    th = gen.spread(s + 3, sh[2], 0., 180.)
    ph = gen.spread(s + 4, sh[3], -180., 360.)
    r_ref = case['r_surf'] or ref.R_REF
    if case['r_surf']:
        cp.basicConfig['params.r_surf'] = r_ref
    kw = {}
    for name, key in (('nmax', 'nmax'), ('deriv', 'deriv'),
                      ('extrapolate', 'mode')):
        if case[key] is not None:
            kw[name] = case[key]
    nmax = min(case['nmax'] or case['deg'], case['deg'])
    key = min(case['order'], case['order'] if case['mode'] == 'spline'
              else KEY[case['mode']])
    src, d = case['source'] or 'internal', case['deriv'] or 0
    tt, pg = th, ph
    if 'grid' in via:
        th = gen.spread(s + 3, (case['grid'][0],), 0., 180.)
        ph = gen.spread(s + 4, (case['grid'][1],), -180., 360.)
        tt, pg = np.meshgrid(th, ph, indexing='ij')
        # one or several times in front of the grid, radii that broadcast
        r = gen.spread(s + 2, [(), (1,), tt.shape, (tt.shape[0], 1),
                               tt.shape[1:]][s % 5], 5000., 9000.)
        t = np.ravel(t)[:4].reshape(-1, 1, 1) if s % 2 else np.ravel(t)[0]
        kw['grid'] = True
    if 'chaos' in via:
        src = 'internal'
        full = cp.CHAOS(breaks, case['order'], coeffs_tdep=coeffs)
        out = full.synth_values_tdep(t, r, th, ph, **kw)
        c = full.synth_coeffs_tdep(t, **options(
            kw, 'nmax', 'deriv', 'extrapolate'))
    elif 'static' in via:
        src, d = 'internal', 0
        kw = {k: v for k, v in kw.items() if k in ('nmax', 'grid')}
        coeffs = coeffs[-1:, :1]
        full = cp.CHAOS(breaks, coeffs_static=[
            coeffs, coeffs.ravel(), coeffs.ravel().tolist()][s % 3])
        out = full.synth_values_static(r, th, ph, **kw)
        c = full.synth_coeffs_static(**options(kw, 'nmax'))
        t = breaks[0]
        breaks = breaks[[0, -1]]
    else:
        m = cp.chaos.BaseModel('m', breaks, case['order'], coeffs,
                               **({} if case['source'] is None
                                  else dict(source=src)))
        out = m.synth_values(t, r, th, ph, **kw)
        c = m.synth_coeffs(t, **options(kw, 'nmax', 'deriv', 'extrapolate'))
    ctx.nontrivial(np.size(out[0]) > 1 and nmax > 1)
    ctx.label(via, src, f'deriv={d}', 'outside' if case['outside']
              else 'inside')
    ce = model_at(breaks, coeffs, t, key, d)[..., :nmax*(nmax + 2)]
    h = np.min(np.diff(breaks))/2.
    size = 1e3*6*4.**6*(6*365.25/h)**d*np.ones(ce.shape)*10.**key
    agree(c, ce, 1e-13, 'synth_coeffs', scale=size, equal_nan=True)
    e, _ = expected(ce, r, tt, pg, 1, nmax, nmax, src, r_ref)
    _, scale = expected(size, r, tt, pg, 1, nmax, nmax, src, r_ref)
    for name, a, b in zip(('radius', 'theta', 'phi'), out, e):
        agree(a, b, 1e-12, f'B_{name} ({via})', scale=scale, equal_nan=True)


def s_spec(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 5), pieces=gen.size(st, 3, 300),
        deg=gen.size(st, 5, 24), salt=gen.salt(st), uniform=st.booleans(),
        shape=gen.dims(st, 2, 3),
        nmax=st.one_of(st.none(), st.integers(1, 6)),
        deriv=st.one_of(st.none(), st.integers(0, 2)),
        source=st.sampled_from([None, 'internal', 'external']),
        radius=st.one_of(st.none(), gen.radius(st)),
        r_surf=st.sampled_from([None, None, 6371.0, 3485.])))


def c_spec(case, ctx):
    cp = harness.chaosmagpy()
    breaks, coeffs = setup(case, cp)
    t = breaks[0] + (breaks[-1] - breaks[0])*gen.spread(
        case['salt'] + 1, tuple(case['shape']), 0., 1.)
    kw = {k: case[k] for k in ('nmax', 'deriv', 'radius')
          if case[k] is not None}
    r_ref = case['r_surf'] or ref.R_REF
    if case['r_surf']:
        cp.basicConfig['params.r_surf'] = r_ref
    src = case['source'] or 'internal'
    m = cp.chaos.BaseModel('m', breaks, case['order'], coeffs,
                           source=case['source'])
    out = m.power_spectrum(t, **kw)
    nmax = min(case['nmax'] or case['deg'], case['deg'])
    rho = (case['radius'] or r_ref)/r_ref
    c = model_at(breaks, coeffs, t, 2, case['deriv'] or 0)
    e = []
    for n in range(1, nmax + 1):
        q = np.sum(c[..., n**2 - 1:(n + 1)**2 - 1]**2, axis=-1)
        e.append(q*((n + 1)*rho**-(2*n + 4.) if src == 'internal'
                    else n*rho**(2*n - 2.)))
    ctx.nontrivial(nmax > 1 and t.size > 1)
    ctx.label(src, f'deriv={case["deriv"]}')
    e = np.stack(e, -1)
    agree(out, e, 1e-8, 'power_spectrum', scale=np.maximum(e, 1e-20))


def s_fd(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(3, 6), pieces=st.integers(1, 4),
        deg=st.integers(1, 4), salt=gen.salt(st), uniform=st.booleans(),
        x=gen.f(st, .05, .9), theta=gen.theta(st), phi=gen.phi(st),
        radius=gen.radius(st, .9)))


def c_fd(case, ctx):
    """The secular variation is the change of the field: its integral over
    time is the difference of the field, per year."""
    cp = harness.chaosmagpy()
    breaks, coeffs = setup(case, cp)
    m = cp.chaos.BaseModel('m', breaks, case['order'], coeffs)
    i = case['salt'] % case['pieces']
    a, b = (breaks[i] + f*(breaks[i+1] - breaks[i])
            for f in (case['x'], case['x'] + .09))
    x, w = np.polynomial.legendre.leggauss(6)
    q = .5*(a + b) + .5*(b - a)*x
    pos = case['radius'], case['theta'], case['phi']
    ctx.nontrivial(case['pieces'] > 1 and case['deg'] > 1)
    sv = m.synth_values(q, *pos, deriv=1)
    B = m.synth_values(np.array([a, b]), *pos)
    sc = ref.field_scale(np.full(case['dim'], 1e3*6*4.**6), pos[0], 1,
                         case['deg'])
    for name, s, v in zip(('radius', 'theta', 'phi'), sv, B):
        agree(np.sum(w*s)*.5*(b - a)/365.25, v[1] - v[0], 1e-11,
              f'secular variation of B_{name}', scale=sc)


def s_missing(st):
    return st.fixed_dictionaries(dict(have=st.sampled_from(
        ['tdep', 'static', 'none']), t=gen.f(st, -100., 100.)))


def c_missing(case, ctx):
    cp = harness.chaosmagpy()
    b = np.array([-100., 100.])
    kw = {'tdep': dict(coeffs_tdep=np.ones((1, 1, 3))), 'none': {},
          'static': dict(coeffs_static=np.ones((1, 1, 3)))}[case['have']]
    m = cp.CHAOS(b, 1, **kw)
    t = case['t']
    ctx.nontrivial()
    if case['have'] != 'tdep':
        rejects('no tdep', m.synth_coeffs_tdep, t, exc=ValueError)
        rejects('no tdep', m.synth_values_tdep, t, 6400., 9., 9.,
                exc=ValueError)
    if case['have'] != 'static':
        rejects('no static', m.synth_coeffs_static, exc=ValueError)
        rejects('no static', m.synth_values_static, 6400., 9., 9.,
                exc=ValueError)
    rejects('no gsm', m.synth_coeffs_gsm, t, exc=ValueError)
    rejects('no gsm', m.synth_values_gsm, t, 6400., 9., 9., exc=ValueError)
    rejects('no sm', m.synth_coeffs_sm, t, exc=ValueError)
    rejects('no sm', m.synth_values_sm, t, 6400., 9., 9., exc=ValueError)
    with harness.scratch():
        which = 'static' if case['have'] == 'tdep' else 'tdep'
        rejects('no coefficients', m.save_shcfile, 'a.shc', model=which,
                exc=ValueError)



def _positions(salt, n):
    return (gen.spread(salt + 1, (n,), 6000., 8000.),
            gen.spread(salt + 2, (n,), 0.5, 179.5),
            gen.spread(salt + 3, (n,), -180., 360.))


def _large(what, deriv=0):
    def make(cp, salt, n):
        b, c = np.array([0., 300., 400., 900.]), fill(salt, 4, 3, 15)
        c *= 100.**-np.arange(3., -1., -1.)[:, None, None]
        m = cp.CHAOS(b, 4, coeffs_tdep=c, coeffs_static=c[-1:, :1])
        t = gen.spread(salt, (n,), -100., 1e3)
        if what == 'tdep':
            return (lambda *a: m.synth_values_tdep(*a, deriv=deriv),
                    (t,) + _positions(salt, n), 1e4)
        if what == 'external':
            m = cp.chaos.BaseModel('m', b, 4, c, source=what)
            return (lambda *a: m.synth_values(*a, deriv=deriv, nmax=2),
                    (t,) + _positions(salt, n), 1e4)
        if what == 'static':
            return m.synth_values_static, _positions(salt, n), 1e3
        return (lambda t: m.model_tdep.power_spectrum(t, deriv=deriv),
                (t,), 1e6)
    return make


LARGE = dict(tdep=_large('tdep'), sv=_large('tdep', 1),
             static=_large('static'), external=_large('external', 1),
             spectrum=_large('spectrum'), spectrum_sv=_large('spectrum', 1))


FACETS = [
    Facet('values', s_values, c_values, 900),
    Facet('spec', s_spec, c_spec, 700),
    Facet('fd', s_fd, c_fd, 300),
    Facet('missing', s_missing, c_missing, 20),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C17', 80),
]
