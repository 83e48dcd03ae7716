import warnings
from math import factorial
import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require
import gen
import history
import large
import ref
from c15_timedep import pp

PROPERTY = 'C16'
SCALE = 4         # times the cases of each facet in quick runs
RULE = ('Models, extrapolation modes (names, integers, booleans), '
        'derivatives, and arrays that mix times before, within and after the '
        'model interval are drawn. Non-trivial: at least one time outside and '
        'a polynomial order of two or higher.')
ASSUMPTIONS = ['At the very end points the derivatives may be those of the '
               'model or of the extrapolation.']

KEY = {'constant': 1, 'linear': 2, 'quadratic': 3, 'cubic': 4, 'off': 0,
       None: 2, 'True': 2, 'False': 0}


def model_at(breaks, coeffs, t, key, d=0):
    """Piecewise polynomial, Taylor polynomial of key terms outside."""
    t = np.asarray(t, float)
    flat, D = t.ravel(), coeffs.shape[-1]
    left, right = flat < breaks[0], flat > breaks[-1]
    e = np.full((flat.size, D), np.nan)
    ok = ~left & ~right & ~np.isnan(flat)
    e[ok] = ref.pp_eval(breaks, coeffs, flat[ok], d)
    if key > 0:
        for side, b in ((left, breaks[0]), (right, breaks[-1])):
            taylor = [ref.pp_eval(breaks, coeffs, np.array([b]), j)[0]
                      for j in range(key)]
            for i in np.flatnonzero(side):
                x = flat[i] - b
                e[i] = sum((taylor[j]*x**(j - d)/factorial(j - d)
                            for j in range(d, key)), np.zeros(D))
    return (e*365.25**d).reshape(t.shape + (D,))


def s_ext(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 7), pieces=gen.size(st, 5, 500),
        deg=gen.size(st, 3, 20), dim=gen.size(st, 6, 99), salt=gen.salt(st),
        uniform=st.booleans(), base=st.booleans(),
        t=st.lists(st.tuples(
            st.sampled_from(['in', 'before', 'after', 'before', 'after',
                             'nan', 'edge']),
            st.one_of(gen.f(st, 0., 1.), st.sampled_from([1e-6, 1.]))),
            min_size=1, max_size=7),
        mode=st.sampled_from([None, 'constant', 'linear', 'quadratic',
                              'cubic', 'spline', 'off', 'True', 'False', 0, 1,
                              2, 3, 4, 5, 9, 3.]),
        deriv=st.one_of(st.none(), st.integers(0, 4)),
        form=st.sampled_from(['array', 'scalar', 'list', '2d']),
        span=st.sampled_from([.01, .3, 1.])))


def c_ext(case, ctx):
    cp = harness.chaosmagpy()
    if not case['base']:
        case['dim'] = case['deg']*(case['deg'] + 2)
    breaks, coeffs = pp(case)
    k, D, mode = case['order'], case['dim'], case['mode']
    length = breaks[-1] - breaks[0]
    t = []
    for kind, x in case['t']:
        t.append({'in': breaks[0] + x*length,
                  'before': breaks[0] - x*length*case['span'],
                  'after': breaks[-1] + x*length*case['span'],
                  'edge': breaks[0] if x < .5 else breaks[-1],
                  'nan': np.nan}[kind])
    t = np.array(t)
    if case['form'] == 'scalar':
        t = t[:1]
    d = case['deriv'] or 0
    key = k if mode == 'spline' else KEY.get(mode, mode)
    key = min(int(key), k)
    arg = {'array': t, 'scalar': float(t[0]), 'list': t.tolist(),
           '2d': t[:, None]}[case['form']]
    kw = {} if case['deriv'] is None else dict(deriv=d)
    if mode is not None:
        kw['extrapolate'] = {'True': True, 'False': False}.get(mode, mode)
    cls = cp.chaos.Base if case['base'] else cp.chaos.BaseModel
    model = cls('m', breaks=breaks, order=k, coeffs=coeffs)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        out = model.synth_coeffs(arg, **kw)
    rec = [r for r in rec if issubclass(r.category, UserWarning)]
    left, right = t < breaks[0], t > breaks[-1]
    outside = left | right
    ctx.nontrivial(outside.any() and k > 1)
    ctx.label(f'mode={mode}', f'order={k}', f'deriv={d}',
              'mixed' if outside.any() and not outside.all() else 'pure')
    require(bool(rec) == bool(outside.any()),
            f'{len(rec)} warnings with {outside.sum()} times outside')
    for r in rec:
        require('{' not in str(r.message), f'text of warning: {r.message}')
    e = model_at(breaks, coeffs, t, key, d)
    # edges with derivatives the extrapolation may not have
    edge = (t == breaks[0]) | (t == breaks[-1])
    skip = edge & outside.any() if (key <= d or (key < k and d > 0)) else \
        np.zeros(t.size, bool)
    h = np.min(np.diff(breaks))/2.
    sc = 1e3*k*4.**k*(k*365.25/h)**d
    far = np.where(left, breaks[0] - t, np.where(right, t - breaks[-1], 0))
    grow = 1. + np.nan_to_num(far)/h
    sc = sc*np.broadcast_to(grow[:, None]**max(key - 1, 0), e.shape)
    out = harness.as_array(out, 'coefficients', np.shape(arg) + (D,))
    o = out.reshape(e.shape)
    agree(o[~skip], e[~skip], 1e-12, f'coefficients ({mode})',
          scale=sc[~skip], equal_nan=True)


def s_join(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(2, 7), pieces=gen.size(st, 5, 500),
        dim=st.integers(1, 4), salt=gen.salt(st),
        mode=st.sampled_from(['constant', 'linear', 'quadratic', 'cubic',
                              'spline']),
        x=gen.f(st, 1e-3, .5), right=st.booleans()))


def c_join(case, ctx):
    """Continuity at the end, and the polynomial degree outside."""
    cp = harness.chaosmagpy()
    breaks, coeffs = pp(case)
    key = min(case['order'] if case['mode'] == 'spline'
              else KEY[case['mode']], case['order'])
    m = cp.chaos.Base('m', breaks=breaks, order=case['order'],
                      coeffs=coeffs)
    b = breaks[-1] if case['right'] else breaks[0]
    step = (1 if case['right'] else -1)*case['x']*np.diff(breaks)[
        -1 if case['right'] else 0]
    ctx.nontrivial()
    ctx.label(case['mode'])
    t = b + step*np.arange(1, key + 2)
    v = m.synth_coeffs(np.append(t, b), extrapolate=case['mode'])
    sc = 1e3*(2*case['order'])**case['order']
    # finite differences of the polynomial vanish (includes the end point)
    seq = np.concatenate((v[-1:], v[:-1]))
    agree(np.diff(seq, n=key, axis=0), np.zeros((2, case['dim'])), 1e-11,
          'degree of the extrapolating polynomial', scale=sc)
    if case['mode'] == 'spline':
        step = step/case['order']  # stay in the last (or first) piece
        inside = m.synth_coeffs(b - step*np.arange(case['order']))
        v = m.synth_coeffs(np.array([b + step]), extrapolate='spline')
        seq = np.concatenate((inside[::-1], v))
        agree(np.diff(seq, n=case['order'], axis=0),
              np.zeros((1, case['dim'])), 1e-11,
              'spline extrapolation continues the last piece', scale=sc)


def s_bad(st):
    return st.fixed_dictionaries(dict(
        mode=st.sampled_from(['Linear', 'none', 'spline3', '', 'nearest']),
        dt=gen.f(st, .1, 99.), salt=gen.salt(st)))


def c_bad(case, ctx):
    cp = harness.chaosmagpy()
    breaks, coeffs = pp(dict(order=3, pieces=2, dim=3, salt=case['salt']))
    m = cp.chaos.BaseModel('m', breaks=breaks, order=3, coeffs=coeffs)
    ctx.nontrivial()
    for t in (breaks[0] - case['dt'], breaks[-1] + case['dt']):
        rejects(f'mode {case["mode"]}', m.synth_coeffs, t,
                extrapolate=case['mode'], exc=ValueError)


def s_static(st):
    return st.fixed_dictionaries(dict(
        t0=gen.f(st, -9e3, 9e3), dt=st.lists(
            gen.f(st, -1e4, 1e4), min_size=1, max_size=4),
        salt=gen.salt(st), mode=st.sampled_from(
            [None, 'constant', 'linear', 'spline', 'off'])))


def c_static(case, ctx):
    cp = harness.chaosmagpy()
    g = fill(case['salt'], 1, 1, 8)
    m = cp.chaos.BaseModel('s', breaks=case['t0'], order=1, coeffs=g)
    t = case['t0'] + np.array(case['dt'])
    out = m.synth_coeffs(t, extrapolate=case['mode'])
    e = np.tile(g[0, 0], (t.size, 1))
    if case['mode'] == 'off':
        e[t != case['t0']] = np.nan
    ctx.nontrivial(np.any(t != case['t0']))
    agree(out, e, 0., 'static model outside of its epoch', equal_nan=True)


def _large_coeffs(mode):
    def make(cp, salt, n):
        m = cp.chaos.BaseModel('m', np.array([0., 3., 4., 9.]), 4,
                               fill(salt, 4, 3, 8))
        return (lambda t: m.synth_coeffs(t, extrapolate=mode),
                (gen.spread(salt, (n,), -9., 18.),), 1e5)
    return make


LARGE = {str(k): _large_coeffs(k) for k in ('constant', 'linear', 'spline')}


FACETS = [
    Facet('ext', s_ext, c_ext, 3000),
    Facet('join', s_join, c_join, 500),
    Facet('bad', s_bad, c_bad, 30),
    Facet('static', s_static, c_static, 200),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C16', 120),
]
