import warnings
import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require
import gen
import history
import large

PROPERTY = 'C24'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Models with 1 to 4 satellites, each with its own bins and angles, '
        'with and without pre-rotation; times in the bins, at their borders '
        'and outside. Non-trivial: several satellites and several bins.')
ASSUMPTIONS = ['At a border between two bins the later bin counts, as for '
               'every piecewise polynomial of the package.']


def grid(salt, n):
    return 100.*(salt % 7) + np.cumsum(gen.spread(salt, (n + 1,), .5, 300.))


def s_angles(st):
    return st.fixed_dictionaries(dict(
        bins=st.lists(gen.size(st, 5, 300), min_size=1, max_size=4),
        salt=gen.salt(st), which=st.integers(0, 3),
        dims=gen.dims(st),
        where=st.sampled_from(['inside', 'borders', 'outside']),
        pre=st.sampled_from(['none', 'no meta', 'angles', 'angles', 'None']),
        amp=st.sampled_from([1., 180., 359., 1e-3]), zero=st.booleans(),
        dim=st.one_of(st.none(), st.none(), st.integers(1, 3)),
        mode=st.sampled_from([None, 'linear', 'constant', 'off', 'spline']),
        cal=st.integers(0, 2)))


def build(case, cp):
    s, n = case['salt'], len(case['bins'])
    sats = [f'sat{"dbca"[i]}' for i in range(n)]
    b = {x: grid(s + i, k) for i, (x, k) in enumerate(zip(sats,
                                                          case['bins']))}
    c = {x: fill(s + 50 + i, 1, k, 3) for i, (x, k) in
         enumerate(zip(sats, case['bins']))}
    if case.get('zero'):    # a bin without length
        for i, x in enumerate(sats):
            if len(b[x]) > 2:
                k = 1 + (s + i) % (len(b[x]) - 2)
                b[x][k] = b[x][k+1]
    pre = (case.get('amp', 1.)*fill(s + 90, n, 3)
           if case['pre'] == 'angles' else None)
    if pre is not None:     # some of the angles are zero, or all of them
        pre[(fill(s + 93, n, 3) > .4) | (s % 11 == 3)] = 0.
    meta = {'none': {}, 'no meta': {}, 'angles': dict(meta=dict(params=dict(
        Euler_prerotation=pre), satellites=tuple(sats))), 'None': dict(
            meta=dict(params=dict(Euler_prerotation=None)))}[case['pre']]
    if case['pre'] == 'none':
        meta = dict(meta=dict(params={}))
    if case['cal']:
        meta.update(breaks_cal={'cryosat-2_1': grid(s + 91, case['cal'])},
                    coeffs_cal={'cryosat-2_1': fill(s + 92, 1, case['cal'],
                                                    9)})
    m = cp.CHAOS(np.array([0., 1.]), breaks_euler=b, coeffs_euler=c, **meta)
    return m, sats, b, c, pre


def c_angles(case, ctx):
    cp = harness.chaosmagpy()
    m, sats, b, c, pre = build(case, cp)
    i = case['which'] % len(sats)
    sat = sats[i]
    br, co = b[sat], c[sat][0]
    if case['where'] == 'borders':
        t = br.copy()
    else:
        lo, hi = (0., 1.) if case['where'] == 'inside' else (-1., 2.)
        t = br[0] + (br[-1] - br[0])*gen.spread(
            case['salt'] + 7, tuple(case['dims']), lo, hi)
    kw = {} if case['dim'] is None else dict(dim=case['dim'])
    if case['mode']:
        kw['extrapolate'] = case['mode']
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        out = m.synth_euler_angles(t, sat, **kw)
    k = np.clip(np.searchsorted(br, t, side='right') - 1, 0, len(co) - 1)
    e = co[k][..., :case['dim'] or 3]
    if case['mode'] == 'off':
        e = np.where(((t < br[0]) | (t > br[-1]))[..., None], np.nan, e)
    ctx.nontrivial(len(sats) > 1 and len(co) > 1)
    ctx.label(case['where'], f'pre={case["pre"]}', f'mode={case["mode"]}')
    agree(out, e, 0., f'Euler angles of {sat}', equal_nan=True)
    told = [w for w in log if 'pre-rotation' in str(w.message)]
    require(bool(told) == (pre is not None),
            f'warning about the pre-rotation: {len(told)}')
    if pre is not None:
        require(str(pre[i]) in str(told[0].message),
                'warning names the pre-rotation angles of another satellite')
        agree(m.model_euler[sat].meta['Euler_prerotation'], pre[i], 0.,
              'pre-rotation')
    if case['cal']:
        x = m.model_cal['cryosat-2_1']
        mid = .5*(x.breaks[1:] + x.breaks[:-1])
        agree(x.synth_coeffs(mid), fill(case['salt'] + 92, 1, case['cal'],
                                        9)[0], 0., 'calibration')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        d = as_array(m.synth_euler_angles(t, sat, deriv=1), 'derivative',
                     t.shape + (3,))
    require(np.all(d == 0.), 'derivative of constant angles')


def s_unknown(st):
    return st.fixed_dictionaries(dict(
        bins=st.lists(st.integers(1, 3), min_size=1, max_size=4),
        salt=gen.salt(st), pre=st.just('none'), cal=st.just(0),
        word=st.one_of(st.sampled_from(['SATD', 'sat', 'satd ', 'champ', '',
                                        'sat_d']), st.text(max_size=5))))


def c_unknown(case, ctx):
    cp = harness.chaosmagpy()
    m, sats, *_ = build(case, cp)
    ctx.nontrivial(len(sats) > 1)
    if case['word'] not in sats:
        rejects('unknown satellite', m.synth_euler_angles, 100.,
                case['word'], exc=ValueError)



def _large(cp, salt, n):
    m, sats, b, _, _ = build(dict(salt=salt, bins=[3, 5], pre='none', cal=0),
                             cp)
    x = sats[salt % 2]
    return (lambda t: m.synth_euler_angles(t, x),
            (gen.spread(salt, (n,), b[x][0] - 10., b[x][-1] + 10.),), 1.)


LARGE = dict(angles=_large)


FACETS = [
    Facet('angles', s_angles, c_angles, 900),
    Facet('unknown', s_unknown, c_unknown, 150, 1000),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C24', 60),
]
