import numpy as np
import harness
from harness import Facet, agree, fill, require, same_bytes
import gen
import history
import ref
from c03_design import make_breaks
from c04_splines import repeat_knots

PROPERTY = 'C18'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Break points, spline orders 1-7, B-spline coefficients, derivatives '
        'and times are drawn. Non-trivial: several pieces and a time in the '
        'interior of a piece.')
ASSUMPTIONS = ['The first and the last knot have the full multiplicity '
               '(documented).']


def s_spline(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 7), pieces=gen.size(st, 6, 250),
        deg=gen.size(st, 3, 12), salt=gen.salt(st), uniform=st.booleans(),
        deriv=st.one_of(st.none(), st.integers(0, 6)),
        x=st.lists(st.one_of(gen.f(st, 0., 1.),
                             st.sampled_from([0., 1., 'knot'])),
                   min_size=1, max_size=6),
        offset=st.sampled_from([0., 0., 0., 1e3, 1e5]),
        unit=st.booleans(), whole=st.sampled_from([False, False, True]),
        source=st.sampled_from(
            [None, 'internal', 'external']), meta=st.booleans(),
        repeat=st.sampled_from([0, 0, 0, 1, 3]),
        span=st.sampled_from([1., 400., 1e5])))


def c_spline(case, ctx):
    cp = harness.chaosmagpy()
    k, p, D = case['order'], case['pieces'], case['deg']*(case['deg'] + 2)
    span = case['span']*p
    breaks = (np.linspace(-span/3, 2*span/3, p + 1) if case['uniform']
              else make_breaks(case['salt'], p + 1, -span/3, span))
    knots = cp.model_utils.augment_breaks(breaks, k)
    own = np.array([breaks[0]]*(k - 1) + list(breaks) + [breaks[-1]]*(k - 1))
    agree(knots, own, 0., 'augment_breaks')
    knots = own = repeat_knots(own, breaks, k, case.get('repeat', 0),
                               case['salt'])
    if knots.size > p + 1 + 2*(k - 1):
        ctx.label('repeated interior knots')
    coef = fill(case['salt'] + 1, knots.size - k, D)
    if case['unit']:
        coef[:] = 0.
        coef[case['salt'] % coef.shape[0], case['salt'] % D] = 1.
    if case.get('offset'):      # nearly constant
        coef = coef + case['offset']
    if case.get('whole'):
        coef = np.round(coef).astype(int) if case['unit'] else \
            np.round(9*coef).astype(int)
    keep = [knots.copy(), coef.copy()]
    kw = {}
    if case['source']:
        kw['source'] = case['source']
    if case['meta']:
        kw['meta'] = {'a': 1}
    m = cp.chaos.BaseModel.from_bspline('x', knots, coef, k, **kw)
    t = []
    for i, x in enumerate(case['x']):
        x = (breaks[(case['salt'] + i) % breaks.size] if x == 'knot'
             else breaks[0] + x*(breaks[-1] - breaks[0]))
        t.append(min(max(x, breaks[0]), breaks[-1]))
    t = np.array(t)
    d = case['deriv'] or 0
    out = m.synth_coeffs(t, **({} if case['deriv'] is None
                               else dict(deriv=d)))
    e = np.zeros((t.size, D)) if d >= k else np.array(
        [ref.bspline_basis(own, k, x, d) for x in t]) @ coef*365.25**d
    ctx.nontrivial(p > 1 and any(not isinstance(x, str) and 0 < x < 1
                                 for x in case['x']))
    ctx.label(f'order={k}', f'deriv={d}')
    h = np.min(np.diff(breaks))
    agree(out, e, 1e-10, f'spline of order {k}, derivative {d}',
          scale=(9 + case.get('offset', 0.))*max(1., (2*k*365.25/h)**d))
    require(m.order == k and m.pieces == p and m.dim == D
            and m.nmax == case['deg'] and m.name == 'x'
            and m.source == (case['source'] or 'internal')
            and m.meta == kw.get('meta'), 'attributes of the model')
    agree(m.breaks, breaks, 0., 'breaks')
    require(same_bytes(keep, [knots, coef]), 'arrays of the caller changed')
    # degree-1 precision: constant coefficients make a constant
    one = cp.chaos.BaseModel.from_bspline('x', knots, np.ones(coef.shape), k)
    agree(one.synth_coeffs(t), np.ones((t.size, D)), 1e-10,
          'partition of unity')


FACETS = [
    Facet('spline', s_spline, c_spline, 1500),
    history.facet('C18', 60),
]
