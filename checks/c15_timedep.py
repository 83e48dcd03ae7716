import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require, same_bytes
import gen
import history
import large
import ref
from c03_design import make_breaks
import warnings

PROPERTY = 'C15'
SCALE = 6         # times the cases of each facet in quick runs
RULE = ('Break points (uniform or not), orders 1-7, dimensions, truncations, '
        'derivatives and times (scalars, lists, arrays of up to three '
        'dimensions, at break points) are drawn. Non-trivial: at least two '
        'pieces and a time that is not a break point.')
ASSUMPTIONS = ['Times are within the interval of the model (see C16 for '
               'times outside).']


def pp(case):
    k, m, D = case['order'], case['pieces'], case['dim']
    breaks = (np.linspace(-500., 500.*m, m + 1) if case.get('uniform')
              else make_breaks(case['salt'], m + 1, -3000., 900.*m))
    # polynomials with contributions of similar size of all powers
    h = np.diff(breaks)
    coeffs = 1e3*fill(case['salt'] + 1, k, m, D)
    coeffs *= (h[:, None]/2.)**-np.arange(k - 1, -1, -1.)[:, None, None]
    return breaks, coeffs


def at(xs, breaks, salt):
    out = []
    for i, x in enumerate(xs):
        if x == 'break':
            out.append(breaks[(salt + i) % breaks.size])
        elif x in ('before', 'after'):
            b = breaks[(salt + i) % breaks.size]
            b = np.nextafter(b, -np.inf if x == 'before' else np.inf)
            out.append(min(max(b, breaks[0]), breaks[-1]))
        else:
            t = breaks[0] + (breaks[-1] - breaks[0])*x
            out.append(min(max(t, breaks[0]), breaks[-1]))
    return np.array(out, dtype=float)


def points(st):
    return st.lists(st.one_of(
        gen.f(st, 0., 1.), st.sampled_from(['break', 'before', 'after', 0.,
                                            1.])), min_size=1, max_size=8)


def s_eval(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 7), pieces=gen.size(st, 6, 700),
        deg=gen.size(st, 4, 20), dim=gen.size(st, 10, 99), salt=gen.salt(st),
        uniform=st.booleans(), x=points(st), base=st.booleans(),
        deriv=st.one_of(st.none(), st.integers(0, 7)),
        trunc=st.one_of(st.none(), st.integers(1, 12)),
        form=st.sampled_from(['array', 'scalar', '0d', 'list', '2d', '3d']),
        extrapolate=st.sampled_from([None, 'off', 'linear', 'spline',
                                     'constant', 'quadratic', 'cubic', 0,
                                     2]),
        fewer=st.integers(0, 2), order_arg=st.booleans()))


def c_eval(case, ctx):
    cp = harness.chaosmagpy()
    if not case['base']:
        case['dim'] = case['deg']*(case['deg'] + 2)
    breaks, coeffs = pp(case)
    k, D = case['order'], case['dim']
    # a smaller order drops the highest powers
    used = k - min(case['fewer'], k - 1) if case['order_arg'] else k
    kw = dict(order=used) if case['order_arg'] else {}
    cls = cp.chaos.Base if case['base'] else cp.chaos.BaseModel
    keep = [breaks.copy(), coeffs.copy()]
    model = cls('m', breaks=breaks, coeffs=coeffs, **kw)
    t = at(case['x'], breaks, case['salt'])
    form = case['form']
    if form in ('scalar', '0d'):
        t = t[0]
    arg = {'scalar': lambda: float(t), '0d': lambda: np.array(t),
           'list': lambda: t.tolist(), '2d': lambda: t[:, None],
           '3d': lambda: t[None, :, None], 'array': lambda: t}[form]()
    opt = {}
    if case['deriv'] is not None:
        opt['deriv'] = case['deriv']
    if case['extrapolate'] is not None:
        opt['extrapolate'] = case['extrapolate']
    d = case['deriv'] or 0
    n = D
    if case['trunc'] is not None:
        if case['base']:
            opt['dim'], n = case['trunc'], min(case['trunc'], D)
        else:
            opt['nmax'] = case['trunc']
            n = min(D, case['trunc']*(case['trunc'] + 2))
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        out = model.synth_coeffs(arg, **opt)
    rec = [r for r in rec if issubclass(r.category, UserWarning)]
    few = n == D and (opt.get('dim', 0) > D
                      or opt.get('nmax', 0) > case['deg'])
    require(few or not rec, f'unexpected warning: '
            f'{rec[0].message if rec else ""}')
    require(rec or not few, 'no warning of too large a truncation')
    ctx.nontrivial(case['pieces'] > 1 and any(not isinstance(x, str)
                                              for x in case['x']))
    ctx.label(f'order={k}', f'deriv={d}', form, 'truncated' if n < D
              else 'all coefficients')
    c = coeffs[-used:]
    tt = np.ravel(np.asarray(arg, float))
    e = ref.pp_eval(breaks, c, tt, d)*365.25**d
    # powers of the distance from the break point, as a scale
    h = np.min(np.diff(breaks))/2.
    e = e.reshape(np.shape(arg) + (D,))[..., :n]
    sc = 1e3*k*4.**k*(k*365.25/h)**d
    agree(out, e, 1e-13, 'coefficients', scale=sc)
    # a second request is not affected by the first one
    out2 = model.synth_coeffs(arg, **opt)
    require(same_bytes(np.asarray(out), np.asarray(out2)),
            'same request, another result')
    require(same_bytes(keep, [breaks, coeffs]), 'arrays of the caller changed')
    require(model.order == used and model.pieces == case['pieces']
            and model.dim == D, 'order, pieces, dim of the model')
    agree(model.coeffs, c, 0., 'coefficients of the model')


def s_time(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(2, 6), pieces=gen.size(st, 5, 500),
        deg=st.integers(1, 3), salt=gen.salt(st),
        x=st.lists(gen.f(st, .02, .98), min_size=1, max_size=5)))


def c_time(case, ctx):
    """Derivatives in time: change rate (per year) of the lower one."""
    cp = harness.chaosmagpy()
    case['dim'] = case['deg']*(case['deg'] + 2)
    breaks, coeffs = pp(case)
    model = cp.chaos.BaseModel('m', breaks, case['order'], coeffs)
    t = at(case['x'], breaks, 0)
    k = np.clip(np.searchsorted(breaks, t, 'right') - 1, 0,
                case['pieces'] - 1)
    h = np.diff(breaks)[k]
    # Gauss-Legendre on part of the piece is exact
    lo, hi = breaks[k] + .05*h, breaks[k] + .95*h
    x, w = np.polynomial.legendre.leggauss(8)
    for d in range(1, case['order']):
        q = .5*(lo + hi)[:, None] + .5*(hi - lo)[:, None]*x
        integral = np.einsum('j,ijk->ik', w, model.synth_coeffs(q, deriv=d))
        integral *= .5*(hi - lo)[:, None]/365.25
        diff = (model.synth_coeffs(hi, deriv=d-1)
                - model.synth_coeffs(lo, deriv=d-1))
        sc = 1e3*4.**case['order']*(6*365.25/np.min(h)*2)**(d - 1)
        agree(integral, diff, 1e-11, f'integral of derivative {d}', scale=sc)
    ctx.nontrivial(case['pieces'] > 1)
    for d in range(case['order'], case['order'] + 2):
        agree(model.synth_coeffs(t, deriv=d), np.zeros((t.size, case['dim'])),
              0., 'derivative of the order or higher')
    # a truncation is a selection
    for n in range(1, case['deg'] + 1):
        agree(model.synth_coeffs(t, nmax=n),
              model.synth_coeffs(t)[..., :n*(n + 2)], 1e-13,
              'truncation', scale=1e3*4.**case['order'])


def s_static(st):
    return st.fixed_dictionaries(dict(
        deg=st.integers(1, 5), salt=gen.salt(st), t0=gen.f(st, -1e4, 1e4),
        dt=st.lists(gen.f(st, -1e4, 1e4), max_size=3),
        form=st.sampled_from(['scalar', 'list', 'array', 'two']),
        source=st.sampled_from([None, 'internal', 'external'])))


def c_static(case, ctx):
    cp = harness.chaosmagpy()
    D = case['deg']*(case['deg'] + 2)
    t0 = case['t0']
    b = {'scalar': t0, 'list': [t0], 'array': np.array([t0]),
         'two': np.array([t0, t0 + 10.])}[case['form']]
    g = fill(case['salt'], 1, 1, D)
    kw = {} if case['source'] is None else dict(source=case['source'])
    m = cp.chaos.BaseModel('s', breaks=b, order=1, coeffs=g, **kw)
    t = np.array([t0] + [t0 + x for x in case['dt']])
    ctx.nontrivial(bool(case['dt']))
    ctx.label(case['form'])
    require(m.breaks.size == 2 and m.pieces == 1 and m.nmax == case['deg']
            and m.source == (case['source'] or 'internal'), 'attributes')
    agree(m.synth_coeffs(t), np.broadcast_to(g[0, 0], (t.size, D)), 0.,
          'static coefficients')
    agree(m.synth_coeffs(t0), g[0, 0], 0., 'static coefficients')
    agree(m.synth_coeffs(t, deriv=1), np.zeros((t.size, D)), 0.,
          'static field has no secular variation')


def s_missing(st):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from(['none', 'empty', 'base']), t=gen.f(st, -9, 9)))


def c_missing(case, ctx):
    cp = harness.chaosmagpy()
    ctx.nontrivial()
    kw = dict(coeffs=np.empty((2, 0, 3))) if case['kind'] == 'empty' else {}
    cls = cp.chaos.Base if case['kind'] == 'base' else cp.chaos.BaseModel
    m = cls('m', breaks=[0., 1.], order=2, **kw)
    rejects('missing coefficients', m.synth_coeffs, case['t'],
            exc=ValueError)


def _large_coeffs(deriv):
    def make(cp, salt, n):
        m = cp.chaos.BaseModel('m', np.array([0., 3., 4., 9.]), 4,
                               fill(salt, 4, 3, 8))
        return (lambda t: m.synth_coeffs(t, deriv=deriv),
                (gen.spread(salt, (n,), 0., 9.),), 1e9)
    return make


LARGE = {f'deriv={k}': _large_coeffs(k) for k in (0, 2)}


FACETS = [
    Facet('eval', s_eval, c_eval, 2500),
    Facet('time', s_time, c_time, 300),
    Facet('static', s_static, c_static, 300),
    Facet('missing', s_missing, c_missing, 20),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C15', 80),
]
