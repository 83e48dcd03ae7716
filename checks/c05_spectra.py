import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require, as_array
import gen
import history
import large
import ref

PROPERTY = 'C05'
SCALE = 10         # times the cases of each facet in quick runs
RULE = ('Coefficients, radius, source, axis and truncation are drawn; the '
        'spectrum is compared with the quadrature of |B|^2 over the sphere. '
        'Non-trivial: at least two degrees with non-zero coefficients.')
ASSUMPTIONS = ['The quadrature (Gauss-Legendre by equidistant longitude) is '
               'exact for the degrees used.']


def s_power(st):
    return st.fixed_dictionaries(dict(
        N=gen.size(st, 7, 30), nmax=st.one_of(st.none(), st.integers(1, 9)),
        radius=st.one_of(st.none(), gen.radius(st)), c=gen.coeff_spec(st),
        source=st.sampled_from([None, 'internal', 'external', 'toroidal']),
        r_surf=st.sampled_from([None, None, 6371.0, 3485.]),
        steep=gen.steep(st), empty=st.sampled_from(
            [None]*5 + ['last', 'first', 'all but one', 'some'])))


def c_power(case, ctx):
    cp = harness.chaosmagpy()
    N = case['N']
    c = gen.coeffs(case['c'], N*(N + 2)) * gen.slope(case['steep'], N)
    if case.get('empty'):       # degrees without power
        deg = np.array([x[0] for x in ref.index_list(1, N)])
        n = 1 + case['c']['salt'] % N
        c = np.where(dict(last=deg >= n, first=deg <= n, some=deg % 3 == n % 3
                          ).get(case['empty'], deg != n), 0., c)
    kw = {k: case[k] for k in ('nmax', 'radius', 'source')
          if case[k] is not None}
    r_ref = case['r_surf'] or ref.R_REF
    if case['r_surf']:
        cp.basicConfig['params.r_surf'] = r_ref
    nmax = min(case['nmax'] or N, N)
    src = case['source'] or 'internal'
    r = case['radius'] or r_ref
    W = cp.model_utils.power_spectrum(c, **kw)
    t, p, w = ref.sphere_quadrature(N)
    A = ref.field_matrix(np.full(t.shape, r_ref if src == 'toroidal' else r),
                         t, p, 1, N, None,
                         'internal' if src == 'toroidal' else src, r_ref)
    idx = ref.index_list(1, N)
    exp = []
    for n in range(1, nmax + 1):
        sel = [i for i, x in enumerate(idx) if x[0] == n]
        B = [np.tensordot(c[sel], a[sel], 1) for a in A]
        if src == 'toroidal':
            # horizontal field of the same pattern, turned by 90 degrees
            B = B[1:]
        exp.append(np.sum(w * sum(b**2 for b in B)))
    ctx.nontrivial(np.count_nonzero(exp) > 1)
    ctx.label(src, 'truncated' if nmax < N else 'full',
              'default radius' if case['radius'] is None else 'radius')
    exp = np.array(exp)
    agree(W, exp, 1e-9, 'power_spectrum', scale=np.maximum(exp, 1e-280))


def s_axis(st):
    return st.fixed_dictionaries(dict(
        N=gen.size(st, 4, 20), dims=st.lists(st.integers(1, 3), max_size=3),
        axis=st.integers(0, 3), negative=st.booleans(), salt=gen.salt(st),
        nmax=st.one_of(st.none(), st.integers(1, 4)),
        source=st.sampled_from(['internal', 'external', 'toroidal']),
        steep=gen.steep(st)))


def c_axis(case, ctx):
    ps = harness.chaosmagpy().model_utils.power_spectrum
    N, dims = case['N'], case['dims']
    ax = min(case['axis'], len(dims))
    base = fill(case['salt'], *dims, N*(N + 2))*gen.slope(case['steep'], N)
    arr = np.moveaxis(base, -1, ax)
    kw = dict(source=case['source'], radius=6800.)
    if case['nmax'] is not None:
        kw['nmax'] = case['nmax']
    nm = min(case['nmax'] or N, N)
    axis = ax - arr.ndim if case['negative'] else ax
    if ax == arr.ndim - 1 and case['salt'] % 2:
        W = ps(arr, **kw)
    else:
        W = ps(arr, axis=axis, **kw)
    exp = np.empty(tuple(dims) + (nm,))
    for i in np.ndindex(*dims):
        # one vector at a time, degree by degree
        for n in range(1, nm + 1):
            x = 6371.2 / 6800.
            fac = dict(internal=(n + 1)*x**(2*n + 4),
                       external=n*x**-(2*n - 2),
                       toroidal=n*(n + 1)/(2*n + 1))[case['source']]
            exp[i + (n - 1,)] = fac * np.sum(base[i][n*n - 1:n*n + 2*n]**2)
    ctx.nontrivial(len(dims) > 0 and N > 1)
    ctx.label(f'ndim={arr.ndim}', 'axis not last' if ax < arr.ndim - 1
              else 'axis last')
    exp = np.moveaxis(exp, -1, ax)
    agree(W, exp, 1e-11, 'power_spectrum along axis',
          scale=np.maximum(exp, 1e-280))


def s_high(st):
    return st.fixed_dictionaries(dict(
        N=st.integers(20, 130), nmax=st.one_of(st.none(), st.integers(1, 140)),
        radius=st.sampled_from([None, 3485., 6371.2, 6371.2, 6800.]),
        source=st.sampled_from([None, 'internal', 'external', 'toroidal']),
        steep=gen.steep(st), salt=gen.salt(st), rows=st.integers(0, 2),
        empty=st.sampled_from([None, None, 'last', 'first', 'all but one',
                               'some'])))


def c_high(case, ctx):
    """Models of many degrees, as those of the lithosphere."""
    N, src, salt = case['N'], case['source'] or 'internal', case['salt']
    shape = (case['rows'],) if case['rows'] else ()
    c = fill(salt, *shape, N*(N + 2)) * gen.slope(case['steep'], N)
    deg = np.repeat(np.arange(1, N + 1), 2*np.arange(1, N + 1) + 1)
    n = 1 + salt % N
    if case['empty']:
        c = np.where(dict(last=deg >= n, first=deg <= n, some=deg % 3 == n % 3
                          ).get(case['empty'], deg != n), 0., c)
    kw = {k: case[k] for k in ('nmax', 'radius', 'source')
          if case[k] is not None}
    nm = min(case['nmax'] or N, N)
    d = np.arange(1, nm + 1)
    x = 6371.2 / (case['radius'] or 6371.2)
    fac = dict(internal=(d + 1)*x**(2.*d + 4), external=d*x**(2. - 2*d),
               toroidal=d*(d + 1)/(2.*d + 1))[src]
    exp = fac*np.stack([np.sum(c[..., k*k - 1:k*k + 2*k]**2, axis=-1)
                        for k in d], axis=-1)
    ctx.nontrivial(np.count_nonzero(exp) > 1)
    ctx.label(src, 'empty degrees' if case['empty'] else 'full')
    W = harness.chaosmagpy().model_utils.power_spectrum(c, **kw)
    agree(W, exp, 1e-11, 'power_spectrum', scale=np.maximum(exp, 1e-280))


def s_corr(st):
    return st.fixed_dictionaries(dict(
        N=gen.size(st, 8, 120), s1=gen.salt(st), s2=gen.salt(st),
        a=st.one_of(gen.f(st, .01, 1e4), gen.f(st, -1e4, -.01)),
        mix=gen.f(st, 0., 1.), steep=gen.steep(st)))


def c_corr(case, ctx):
    mu = harness.chaosmagpy().model_utils
    N, a = case['N'], case['a']
    n = N*(N + 2)
    c1 = fill(case['s1'], n)
    c2 = case['mix']*c1 + (1 - case['mix'])*fill(case['s2'], n)
    c1, c2 = (x*gen.slope(case['steep'], N) for x in (c1, c2))
    ctx.nontrivial(N > 1)
    idx = ref.index_list(1, N)
    exp, sens = [], np.empty(n)
    for d in range(1, N + 1):
        i = [j for j, x in enumerate(idx) if x[0] == d]
        exp.append(sum(c1[j]*c2[j] for j in i) / (
            sum(c1[j]**2 for j in i) * sum(c2[j]**2 for j in i))**.5)
        for j in i:
            sens[j] = (c1[j] - c2[j]) / np.sqrt(
                sum(c2[k]**2 for k in i) / (2*d + 1))
    k = mu.degree_correlation
    agree(k(c1, c2), exp, 1e-11, 'degree_correlation')
    agree(k(c2, c1), exp, 1e-11, 'degree_correlation symmetric')
    agree(k(a*c1, c2), np.sign(a)*np.array(exp), 1e-9, 'scaled input')
    agree(k(c1, a*c1), np.full(N, np.sign(a)), 1e-11, 'self correlation')
    require(np.all(np.abs(as_array(k(c1, c2), 'corr')) <= 1 + 1e-12),
            'degree correlation outside [-1, 1]')
    agree(mu.sensitivity(c1, c2), sens, 1e-11, 'sensitivity',
          scale=np.abs(sens) + np.abs(c1/1e-3))
    agree(mu.sensitivity(c2, c2), np.zeros(n), 0., 'sensitivity of truth')
    for fn in (k, mu.sensitivity):
        rejects('sizes differ', fn, c1, np.concatenate((c2, [1.]*(2*N + 3))),
                exc=ValueError)
        rejects('2-D input', fn, c1[None], c2[None], exc=ValueError)
        rejects('2-D input', fn, c1, c2[None], exc=ValueError)


def _large_power(cp, salt, n):
    return (lambda c: cp.model_utils.power_spectrum(c, 7000.),
            (fill(salt, n, 15),), 100.)


LARGE = dict(power=_large_power)


FACETS = [
    Facet('power', s_power, c_power, 800),
    Facet('high', s_high, c_high, 100),
    Facet('axis', s_axis, c_axis, 800),
    Facet('corr', s_corr, c_corr, 800),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C05', 48),
]
