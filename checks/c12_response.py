import os
import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require
import gen
import history
import large
import ref

PROPERTY = 'C12'
SCALE = 6         # times the cases of each facet in quick runs
RULE = ('Numbers of shells, radii, conductivities over five decades, periods '
        'from minutes to years and degrees are drawn. Non-trivial: at least '
        'two shells of different conductivity and degree > 1 or several '
        'periods.')
ASSUMPTIONS = ['The conductivities are not negative; degrees up to 25 for '
               'uniform shells, whose power series and finite sums lose '
               'digits for higher ones, and up to 60 for the others.']


def s_1d(st):
    return st.fixed_dictionaries(dict(
        kind=st.sampled_from([None, 'quadratic', 'constant']),
        layers=gen.size(st, 7, 40), salt=gen.salt(st),
        n=st.one_of(st.integers(1, 6), st.integers(7, 60)),
        thick=st.sampled_from([.6, .6, .6, .9, .3, .1]),
        insulators=st.integers(0, 7),
        logT=st.lists(gen.f(st, 2., 8.), min_size=1, max_size=4),
        top=st.sampled_from([6371.2, 6371.2, 6300., 3000.]),
        thin=st.sampled_from([0., 0., 1e-4, 5e-6]),
        scalar=st.booleans()))


def profile(case):
    L = case['layers'] + (1 if case['kind'] == 'constant' else 0)
    # many shells: thinner ones, to stay clear of the center
    low = max(case.get('thick', .6), 1. - 5./L)
    ratio = gen.spread(case['salt'], (L - 1,), low, .999)
    if case.get('thin'):        # some shells of 30 m to 600 m
        ratio[case['salt'] % 3::3] = 1. - case['thin']
    radius = case['top']*np.concatenate(([1.], np.cumprod(ratio)))
    sigma = 10.**gen.spread(case['salt'] + 1, (L,), -4., 1.)
    if case.get('insulators', 7) < 3:
        sigma[case['insulators']::3] = 0.
    return radius, sigma


def c_1d(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    radius, sigma = profile(case)
    T = 10.**np.array(case['logT'])
    n = case['n']
    if case['kind'] == 'constant':      # power series of limited accuracy
        n = case['n'] = min(n, 25)
    arg = float(T[0]) if case['scalar'] else T
    if case['scalar']:
        T = T[:1]
    kw = {} if case['kind'] is None else dict(kind=case['kind'])
    out = cu.q_response_1D(arg, sigma, radius, n, **kw)
    require(len(out) == 4, 'four outputs expected')
    fn = ref.response_constant if case['kind'] == 'constant' else \
        ref.response_quadratic
    C, Q = zip(*(fn(t, sigma, radius, n) for t in T))
    C, Q = np.array(C, complex), np.array(Q, complex)
    ctx.nontrivial(case['layers'] > 1 and (n > 1 or T.size > 1))
    ctx.label(f'kind={case["kind"]}', f'n={n}')
    tol = 1e-5 if case['kind'] == 'constant' else 1e-8
    if case.get('thin') and case['kind'] == 'constant':
        # differences between the two sides of a thin shell lose digits
        tol = max(tol, 1e-8/case['thin'])
    agree(out[0], C, tol, 'C-response', scale=np.abs(C))
    rho = ref.MU0*2*np.pi/T*np.abs(C*1e3)**2
    agree(out[1], rho, 3*tol, 'surface resistance', scale=rho)
    require(not np.iscomplexobj(out[1]), 'surface resistance is complex')
    agree(out[2], 90. + np.degrees(np.angle(C)), 2e-2, 'phase', scale=1.)
    agree(out[3], Q, 4*tol, 'Q-response', scale=1.)
    # physics: passive conductor
    c = as_array(out[0], 'C', C.shape, complex)
    require(np.all(c.real > 0) and np.all(c.imag <= (
        tol if case.get('thin') else 1e-9)*np.abs(c)),
            'C-response of a passive conductor')


def s_limits(st):
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 6), salt=gen.salt(st), layers=st.integers(1, 4)))


def c_limits(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    n = case['n']
    ctx.nontrivial()
    case = dict(case, kind='quadratic', top=6371.2)
    radius, sigma = profile(case)
    # insulator
    C, _, _, Q = cu.q_response_1D(np.array([1e12]), 1e-12*sigma, radius, n)
    agree(C, [6371.2/(n + 1) + 0j], 1e-6, 'C of an insulator', scale=1e3)
    agree(Q, [0j], 1e-6, 'Q of an insulator')
    # perfect conductor
    C, _, _, Q = cu.q_response_1D(np.array([1e-3]), 1e6*sigma, radius, n)
    agree(Q, [n/(n + 1.) + 0j], 1e-2, 'Q of a perfect conductor')
    # complex conjugate for negative periods
    for kind in ('quadratic', 'constant'):
        x = np.append(radius, .5*radius[-1])
        y = np.append(sigma, sigma[-1])
        a, b = (cu.q_response_1D(T, y, x, n, kind=kind) for T in
                (np.array([1e4, 1e6]), np.array([-1e4, -1e6])))
        for i, name in ((0, 'C-response'), (3, 'Q-response')):
            agree(b[i], np.conj(as_array(a[i], name, (2,), complex)), 1e-9,
                  f'{name} ({kind}) for negative periods', scale=1e3)
    # splitting a shell where the profile continues changes nothing
    k = case['salt'] % radius.size
    inner = radius[k+1] if k + 1 < radius.size else .5*radius[k]
    mid = .5*(radius[k] + inner)
    r2 = np.insert(radius, k + 1, mid)
    s2 = np.insert(sigma, k + 1, sigma[k]*(radius[k]/mid)**2)
    T = np.array([1e4, 1e6])
    a, b = (cu.q_response_1D(T, s, r, n)[0]
            for s, r in ((sigma, radius), (s2, r2)))
    agree(b, as_array(a, 'C', (2,), complex), 1e-8, 'shell split in two',
          scale=1e3)


def s_resp(st):
    return st.fixed_dictionaries(dict(
        nmax=st.integers(1, 4), layers=st.integers(2, 5), salt=gen.salt(st),
        f=st.lists(st.one_of(gen.f(st, 1e-9, 1e-4), st.just(0.)),
                   min_size=1, max_size=5), default=st.booleans()))


def c_resp(case, ctx):
    cp = harness.chaosmagpy()
    case = dict(case, kind='quadratic', top=6371.2)
    radius, sigma = profile(case)
    f = np.array(case['f'])
    with harness.scratch() as d:
        if not case['default']:
            path = os.path.join(d, 'sigma.dat')
            np.savetxt(path, np.stack((6371.2 - radius, sigma), -1),
                       fmt='%.17g')
            cp.basicConfig['file.Earth_conductivity'] = path
        else:
            dat = np.loadtxt(cp.basicConfig['file.Earth_conductivity'])
            radius, sigma = 6371.2 - dat[:, 0], dat[:, 1]
        q = cp.coordinate_utils.q_response(f, case['nmax'])
        q = as_array(q, 'q_response', (case['nmax'], f.size), complex)
    ctx.nontrivial(np.any(f > 0) and case['nmax'] > 1)
    ctx.label('default profile' if case['default'] else 'profile from file',
              'zero frequency' if np.any(f == 0) else 'all positive')
    for n in range(1, case['nmax'] + 1):
        e = [ref.response_quadratic(1/x, sigma, radius, n)[1] if x else 0.
             for x in f]
        agree(q[n-1], np.array(e, complex), 1e-8, f'degree {n}', scale=1.)


def s_bad(st):
    return st.fixed_dictionaries(dict(kind=st.sampled_from(
        ['linear', 'Quadratic', '', 'const', 'uniform'])))


def c_bad(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    T, s, r = np.array([1e4]), np.array([1., 2.]), np.array([6371., 3000.])
    ctx.nontrivial()
    rejects('kind', cu.q_response_1D, T, s, r, 1, kind=case['kind'],
            exc=ValueError)
    rejects('2-D periods', cu.q_response_1D, T[None], s, r, 1,
            exc=ValueError)
    rejects('2-D sigma', cu.q_response_1D, T, s[None], r, 1, exc=ValueError)


def _large_1d(cp, salt, n):
    s, r = 10.**fill(salt, 4), np.array([6371.2, 6000., 5000., 3480.])

    def fn(T):
        return cp.coordinate_utils.q_response_1D(T, s, r, 2)
    return fn, (10.**gen.spread(salt + 1, (n,), 4., 8.),), 1e10


def _large_response(cp, salt, n):
    return (lambda f: cp.coordinate_utils.q_response(f, 2).T,
            (10.**gen.spread(salt, (n,), -8., -4.),), 10.)


LARGE = dict(single=_large_1d, matrix=_large_response)


FACETS = [
    Facet('one', s_1d, c_1d, 1600),
    Facet('limits', s_limits, c_limits, 400),
    Facet('resp', s_resp, c_resp, 300),
    Facet('bad', s_bad, c_bad, 20),
    large.facet(LARGE, 16, [1031, 4099]),
    large.layout(LARGE, ['single', 'matrix'], 60),
    large.alike(LARGE, 60),
    history.facet('C12', 80),
]
