import os
import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require
import gen
import history
import large
import ref
from c01_synthesis import expected
from c15_timedep import pp
from c16_extrapolation import model_at
from c21_external import (gsm_coeffs, sm_coeffs, make_model, prepare)

PROPERTY = 'C20'
RULE = ('Complete models with random coefficients of all sources, every '
        'subset and order of the list of sources and its short forms, '
        'broadcastable arrays of times and positions, RC-indices and '
        'truncations. Non-trivial: several sources and several points.')
ASSUMPTIONS = ['Times are within the model interval, or the time-dependent '
               'field is extrapolated linearly as by default.']

ORDER = ['tdep', 'static', 'gsm', 'sm']


def s_sum(st):
    subset = st.lists(st.sampled_from(ORDER), unique=True, min_size=1,
                      max_size=4)
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 5), pieces=gen.size(st, 3, 200),
        deg=gen.size(st, 4, 20), uniform=st.booleans(), salt=gen.salt(st),
        nst=st.integers(1, 5), n=st.integers(1, 2), k=st.integers(1, 3),
        scaled=st.booleans(), builtin=st.booleans(),
        nmax_static=st.one_of(st.none(), st.integers(1, 6)),
        sources=st.one_of(subset, subset, st.sampled_from(
            [None, 'internal', 'external'] + ORDER)),
        container=st.sampled_from(['list', 'tuple']),
        shapes=gen.broadcast_shapes(st, 4), outside=st.booleans(),
        close=st.sampled_from([''] * 6 + ['r', 't', 'th', 'ph', 'all']),
        rc=st.sampled_from(['both', 'both', 'external', 'internal', 'none']),
        quiet=st.sampled_from(['', '', '', 'external', 'internal', 'both']),
        depth=st.sampled_from([(6000., 7500.)]*5 + [
            (1300., 3400.), (400., 1200.), (7500., 60000.)]),
        r_surf=st.sampled_from([None, None, None, 6371., 3485.]),
        verbose=st.sampled_from([None, False, True])))


def rc_file(folder, time, rc, name):
    """Index at the given times by the RC file, not by an argument."""
    del rc[name]
    cp = harness.chaosmagpy()
    t = np.linspace(np.amin(time) - 3., np.amax(time) + 3., 5)
    f = os.path.join(folder, 'rc.dat')
    with open(f, 'w') as g:
        for x in t.tolist():
            g.write(f'{x!r} 999. {2*x + 5!r} {7 - x!r} D\n')
    cp.basicConfig['file.RC_index'] = f
    return 2*time + 5 if name == 'rc_e' else 7 - time


def c_sum(case, ctx):
    cp = harness.chaosmagpy()
    case['dim'] = case['deg']*(case['deg'] + 2)
    breaks, coeffs = pp(case)
    s = case['salt']
    r_ref = case.get('r_surf') or ref.R_REF
    with harness.scratch() as d:
        gsm, sm = prepare(case, d)
        if case.get('r_surf'):
            cp.basicConfig['params.r_surf'] = r_ref
        st_ = fill(s + 61, case['nst']*(case['nst'] + 2))
        m0, b, v = make_model(case, gsm, sm)
        m = cp.CHAOS(breaks, case['order'], coeffs_tdep=coeffs,
                     coeffs_static=st_[None, None], coeffs_sm=sm,
                     coeffs_gsm=gsm, breaks_delta=b, coeffs_delta=v)
        sh = [tuple(x) for x in case['shapes']]
        lo, hi = (-.2, 1.2) if case['outside'] else (0., 1.)
        t = breaks[0] + (breaks[-1] - breaks[0])*gen.spread(s + 7, sh[0],
                                                            lo, hi)
        lo, hi = case.get('depth', (6000., 7500.))
        r = gen.spread(s + 8, sh[1], lo, hi)
        th = gen.spread(s + 9, sh[2], 0., 180.)
        ph = gen.spread(s + 10, sh[3], -180., 360.)
        # values which differ by very little
        if case['close'] in ('t', 'all'):
            t = np.mean(t) + 1e-7*(t - np.mean(t))
        if case['close'] in ('r', 'all'):
            r = np.mean((lo, hi)) + 1e-7*(r - np.mean((lo, hi)))
        if case['close'] in ('th', 'all'):
            th = 50. + 1e-7*(th - 50.)
        if case['close'] in ('ph', 'all'):
            ph = 10. + 1e-7*(ph - 10.)
        rc_e, rc_i = (100*fill(s + i, *np.shape(t)) for i in (11, 12))
        if case.get('quiet') in ('both', 'external'):
            rc_e = 0*rc_e
        if case.get('quiet') in ('both', 'internal'):
            rc_i = 0*rc_i
        rc = dict(rc_e=rc_e, rc_i=rc_i)
        if case['rc'] != 'both':  # what is not given comes from the file
            if case['rc'] != 'external':
                rc_e = rc_file(d, t, rc, 'rc_e')
            if case['rc'] != 'internal':
                rc_i = rc_file(d, t, rc, 'rc_i')
        src = case['sources']
        names = {None: ORDER, 'internal': ORDER[:2], 'external': ORDER[2:]}[
            src] if src in (None, 'internal', 'external') else \
            [src] if isinstance(src, str) else src
        if isinstance(src, list):
            src = tuple(src) if case['container'] == 'tuple' else src
        kw = rc
        if src is not None:
            kw['source_list'] = src
        for key in ('nmax_static', 'verbose'):
            if case[key] is not None:
                kw[key] = case[key]
        out = m(t, r, th, ph, **kw)
        parts = []
        nst = min(case['nmax_static'] or 85, case['nst'])
        if 'tdep' in names:
            c = model_at(breaks, coeffs, t, min(2, case['order']), 0)
            parts.append((c, 1e5*6*4.**6, 'internal'))
        if 'static' in names:
            parts.append((st_[:nst*(nst + 2)], 1., 'internal'))
        if 'gsm' in names:
            c = gsm_coeffs(t, gsm)
            parts += [(c[k], 1e3, k) for k in c]
        if 'sm' in names:
            c = sm_coeffs(t, sm, b, v, rc_e, rc_i)
            parts += [(c[k], 1e4, k) for k in c]
    shape = np.broadcast_shapes(*sh)
    ctx.nontrivial(len(names) > 1 and np.prod(shape) > 1)
    ctx.label(f'rc={case["rc"]}', f'close={case["close"]}')
    ctx.label('sources=' + '+'.join(sorted(names)), str(case['sources'])
              if not isinstance(case['sources'], list) else
              case['container'])
    total, scale = [np.zeros(shape)]*3, np.zeros(shape)
    for c, size, kind in parts:
        n = int(np.sqrt(c.shape[-1] + 1)) - 1
        e, _ = expected(c, r, th, ph, 1, n, n, kind, r_ref)
        _, sc = expected(np.full(c.shape, size), r, th, ph, 1, n, n, kind,
                         r_ref)
        total = [a + b for a, b in zip(total, e)]
        scale = scale + sc
    for name, a, e in zip(('radius', 'theta', 'phi'), out, total):
        agree(a, e, 1e-12, f'B_{name}', scale=scale)


def s_degree(st):
    return st.fixed_dictionaries(dict(
        nst=st.sampled_from([84, 85, 86, 90]), salt=gen.salt(st),
        arg=st.sampled_from(['none', 'none', 84, 86, 200]),
        theta=gen.theta(st), phi=gen.phi(st), r=gen.f(st, 6371., 6800.),
        verbose=st.sampled_from([None, False, True])))


def c_degree(case, ctx):
    """By default, the static field is truncated at degree 85."""
    cp = harness.chaosmagpy()
    n = case['nst']
    c = fill(case['salt'], 1, 1, n*(n + 2))
    m = cp.CHAOS(np.array([0., 1.]), coeffs_static=c)
    kw = {} if case['arg'] == 'none' else dict(nmax_static=case['arg'])
    if case.get('verbose') is not None:
        kw['verbose'] = case['verbose']
    top = min(n, 85 if case['arg'] == 'none' else case['arg'])
    ctx.nontrivial()
    ctx.label(f'{n} to {top}')
    out = m(.5, case['r'], case['theta'], case['phi'],
            source_list=['static'], **kw)
    e = cp.model_utils.synth_values(c[0, 0, :top*(top + 2)], case['r'],
                                    case['theta'], case['phi'])
    for name, a, b in zip(('radius', 'theta', 'phi'), out, e):
        agree(a, b, 1e-10, f'static B_{name}', scale=1e4)


def s_missing(st):
    return st.fixed_dictionaries(dict(
        have=st.sampled_from(['tdep', 'static', 'gsm', 'sm']),
        t=gen.f(st, 0., 1.), word=st.sampled_from(
            ['all', 'statik', 'GSM', 'Internal', 'sm ', '', 'ext'])))


def c_missing(case, ctx):
    """A part that the model does not have cannot contribute."""
    cp = harness.chaosmagpy()
    big = np.array([0., 1.])
    k3 = ('q10', 'q11', 's11')
    kw = dict(tdep=dict(order=1, coeffs_tdep=np.ones((1, 1, 3))),
              static=dict(coeffs_static=np.ones((1, 1, 3))),
              gsm=dict(coeffs_gsm=np.ones(8)),
              sm=dict(coeffs_sm=np.ones(8), breaks_delta={k: big for k in k3},
                      coeffs_delta={k: np.ones((1, 1)) for k in k3}))
    m = cp.CHAOS(big, **kw[case['have']])
    pos = case['t'], 6400., 20., 20.
    rc = dict(rc_e=1., rc_i=1.)
    ctx.nontrivial()
    ctx.label(case['have'])
    for name in ORDER:
        if name == case['have']:
            out = m(*pos, source_list=[name], **rc)
            require(np.all(np.isfinite(out)), f'{name}: not finite')
        else:
            rejects(f'{name} is missing', m, *pos, source_list=[name], **rc,
                    exc=ValueError)
    rejects('all sources', m, *pos, **rc, exc=ValueError)
    for src in (case['word'], [case['word'], case['have']],
                case['have'] + ' ', [case['have'] + case['have'][0]],
                [case['have'] + '_' + case['have']], [case['have'][:-1]],
                (case['have'], case['word']), [case['have'].upper()]):
        rejects('unknown source', m, *pos, source_list=src, **rc,
                exc=ValueError)
    rejects('shapes', m, np.zeros(2), np.full(3, 6400.), 20., 20., **rc,
            source_list=[case['have']], exc=ValueError)



def _large(src):
    def make(cp, salt, n):
        m0, b, v = make_model(dict(salt=salt), np.ones(8), np.ones(8))
        c = fill(salt, 3, 2, 15)*np.array([1e-4, 1e-2, 1.])[:, None, None]
        m = cp.CHAOS(np.array([0., 300., 500.]), 3, coeffs_tdep=c,
                     coeffs_static=c[-1:, :1], coeffs_gsm=20*fill(salt, 8),
                     coeffs_sm=fill(salt + 1, 8), breaks_delta=b,
                     coeffs_delta=v)
        rc = 100*fill(salt + 3, n)
        return (lambda *a: m(*a[:4], rc_e=a[4], rc_i=a[5], source_list=src), (
            gen.spread(salt + 2, (n,), 0., 500.),
            gen.spread(salt + 4, (n,), 6000., 7500.),
            gen.spread(salt + 5, (n,), 0., 180.),
            gen.spread(salt + 6, (n,), -180., 360.), rc, rc/3), 1e4)
    return make


LARGE = {str(x): _large(x) for x in (None, 'internal', 'external',
                                     ['gsm', 'static'], ['sm', 'tdep'])}


FACETS = [
    Facet('sum', s_sum, c_sum, 2400),
    Facet('degree', s_degree, c_degree, 60, 400),
    Facet('missing', s_missing, c_missing, 20, 100),
    large.facet(LARGE, 24, [1031, 4099]),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C20', 320),
]
