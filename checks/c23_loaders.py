import os
import pathlib
import numpy as np
import harness
from harness import Facet, agree, fill, require
import gen
import history
import ref
from c13_time import dy_exact
from c14_shc import index

PROPERTY = 'C23'
SCALE = 8         # times the cases of each facet in quick runs
RULE = ('Degrees, break points, spline orders, coefficients and number '
        'layouts (line length, formats) of the model files are drawn and '
        'written by an independent writer. Non-trivial: more than one degree '
        'and several coefficients in time.')
ASSUMPTIONS = ['The files follow the published layouts; decimal years have '
               '365.25 days, apart from the IGRF with calendar years.']


def words(values, fmt, per_line):
    w = [fmt % v for v in values]
    return [' '.join(w[i:i + per_line]) + '\n'
            for i in range(0, len(w), per_line)]


def basis(breaks, order, t, deriv):
    """All B-splines of the plain break points (no endpoint multiplicity)."""
    return np.array([ref.bspline_basis(breaks, order, x, deriv) for x in t])


def s_spline(st):
    return st.fixed_dictionaries(dict(
        model=st.sampled_from(['covobs', 'gufm1', 'cals7k']),
        deg=st.one_of(gen.size(st, 5, 16), gen.size(st, 12, 24)), inner=gen.size(st, 6, 20),
        salt=gen.salt(st), amp=st.sampled_from([3e4, 3e4, 1e5, 1., 1e-5, 1e-9]),
        order=st.integers(2, 5), per=st.integers(1, 9),
        fmt=st.sampled_from(['%.17g', '%.9e', '%12.4f']),
        eol=st.sampled_from(['\n', '\n', '\r\n']),
        blank=st.sampled_from([None, None, '\t', '   ', ' \t']),
        uniform=st.booleans(), start=st.sampled_from([-5000., 1590., 1840.]),
        name=st.sampled_from([None, 'my']),
        x=st.lists(gen.f(st, 0., 1.), min_size=1, max_size=6),
        file=st.sampled_from(['model', 'a.b.txt', 'gufm.v1', 'CALS7K.2', 'My Model_B.TXT'])))


def c_spline(case, ctx):
    cp = harness.chaosmagpy()
    kind, N = case['model'], case['deg']
    k = case['order'] if kind == 'covobs' else 4
    nspl = case['inner'] + (k - 1 if kind == 'covobs' else 0)
    nb = nspl + k
    if case['uniform']:
        breaks = case['start'] + 2.5*np.arange(nb)
    else:
        breaks = case['start'] + np.round(np.cumsum(
            1 + np.abs(fill(case['salt'], nb))*4), 4)
    D = N*(N + 2)
    c = case['amp']*fill(case['salt'] + 1, nspl, D)
    c.flat[case['salt'] % c.size] = [0., case['amp'], -case['amp']][
        case['salt'] % 3]
    fmt, per = case['fmt'], case['per']
    num = np.array([float(fmt % x) for x in c.ravel()]).reshape(c.shape)
    if kind == 'covobs':
        lines = ['COV-OBS something 12 3\n',
                 f' {N} {nspl} {k} ' + ' '.join('%.6f' % b for b in breaks)
                 + '\n'] + words(c.ravel(), fmt, per)
        load = cp.load_CovObs_txtfile
    elif kind == 'gufm1':
        lines = ['gufm1 title 1 2 3\n', f'  {N} {nspl}\n'] + words(
            breaks, '%.6f', 5) + words(c.ravel(), fmt, per)
        load = cp.load_gufm1_txtfile
    else:
        body = (words([breaks[3], breaks[-4]], '%.6f', 2)
                + [f'{k} 0 {N} 0 {nspl}\n'] + words(breaks, '%.6f', 4)
                + words(c.ravel(), fmt, per))
        lines = [s.replace('e', 'D') for s in body]
        load = cp.load_CALS7K_txtfile
    with harness.scratch() as d:
        path = os.path.join(d, case['file'])
        if case.get('blank'):   # other white space
            lines[1:] = [case['blank'] + x.strip().replace(
                ' ', case['blank']) + '\n' for x in lines[1:]]
        with open(path, 'w', newline=case['eol']) as f:
            f.writelines(lines + ['\n', ' \n', ''][:case['salt'] % 4])
        if case['salt'] % 3 == 0:
            path = pathlib.Path(path)
        m = load(path, **({} if case['name'] is None
                          else dict(name=case['name'])))
    want = case['name'] or (case['file'] if kind == 'cals7k' else
                            os.path.splitext(case['file'])[0])
    require(m.name == want, f'name {m.name}, expected {want}')
    require(m.source == 'internal' and m.nmax == N and m.order == k,
            'source, degree or order')
    ctx.nontrivial(N > 1 and nspl > 1)
    ctx.label(kind)
    mjd = (breaks - 2000.)*365.25
    agree(m.breaks, mjd, 1e-14, 'break points', scale=1e6)
    t = mjd[0] + (mjd[-1] - mjd[0])*np.array(case['x'])
    t = np.clip(t, mjd[0], np.nextafter(mjd[-1], -np.inf))
    h = np.min(np.diff(mjd))
    for dv in (0, 1):
        e = basis(mjd, k, t, dv) @ num*365.25**dv
        agree(m.synth_coeffs(t, deriv=dv), e, 1e-9,
              f'coefficients, derivative {dv}',
              scale=max(case['amp']*max(1., (365.25*k/h)**dv), 1e-300))


def s_igrf(st):
    return st.fixed_dictionaries(dict(
        deg=st.integers(1, 13), epochs=st.integers(1, 6),
        salt=gen.salt(st), first=st.sampled_from([1900, 1945, 1995]),
        name=st.sampled_from([None, 'my']), head=st.integers(0, 3),
        eol=st.sampled_from(['\n', '\n', '\r\n']),
        empty=st.lists(st.tuples(st.integers(0, 30), st.sampled_from(
            ['', ' ', '\t', '  \t '])), max_size=3),
        x=st.lists(gen.f(st, 0., 1.), min_size=1, max_size=6)))


def c_igrf(case, ctx):
    cp = harness.chaosmagpy()
    n = case['epochs']
    years = case['first'] + 5*np.arange(n)
    idx = index(1, case['deg'])
    val = np.round(3e4*fill(case['salt'], len(idx), n), 2)
    sv = np.round(50*fill(case['salt'] + 1, len(idx)), 1)
    lines = ['# 13th Generation International Geomagnetic Reference\n',
             '   # another comment\n', '#\n'][:case['head']]
    lines.append('c/s deg ord ' + ' '.join(['IGRF']*n) + ' SV\n')
    lines.append('g/h n m ' + ' '.join('%.1f' % y for y in years)
                 + f' {years[-1]}-{years[-1] % 100 + 5}\n')
    for (i, m), row, s in zip(idx, val, sv):
        lines.append(f'{"g" if m >= 0 else "h"}  {i} {abs(m)} '
                     + ' '.join('%.2f' % x for x in row) + f'  {s}\n')
    for at, space in case['empty']:
        lines.insert(at % (len(lines) + 1), space + '\n')
    ctx.label('empty lines' if case['empty'] else 'no empty line')
    with harness.scratch() as d:
        file = ['igrf13coeffs.txt', 'IGRF-14.v2.TXT'][case['salt'] % 2]
        path = os.path.join(d, file)
        with open(path, 'w', newline=case['eol']) as f:
            f.writelines(lines)
        if case['salt'] % 3 == 0:
            path = pathlib.Path(path)
        m = cp.load_IGRF_txtfile(path, **({} if case['name'] is None
                                          else dict(name=case['name'])))
    require(m.name == (case['name'] or os.path.splitext(file)[0]), 'name')
    require(m.nmax == case['deg'] and m.source == 'internal', 'degree')
    ctx.nontrivial(n > 1 and case['deg'] > 1)
    nodes = np.array([float(dy_exact(int(y)))
                      for y in list(years) + [years[-1] + 5]])
    full = np.concatenate((val, (val[:, -1] + 5*sv)[:, None]), axis=1)
    t = nodes[0] + (nodes[-1] - nodes[0])*np.array(case['x'])
    t = np.concatenate((np.clip(t, nodes[0], nodes[-1]), nodes))
    e = np.array([np.interp(t, nodes, row) for row in full]).T
    agree(m.synth_coeffs(t), e, 1e-12, 'linear interpolation of the epochs',
          scale=1e5)
    mid = .5*(nodes[-1] + nodes[-2])
    agree(m.synth_coeffs(mid, deriv=1),
          5*sv/(nodes[-1] - nodes[-2])*365.25, 1e-10,
          'predictive secular variation', scale=1e3)


FACETS = [
    Facet('spline', s_spline, c_spline, 700),
    Facet('igrf', s_igrf, c_igrf, 400),
    history.facet('C23', 60),
]
