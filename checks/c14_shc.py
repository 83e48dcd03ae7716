import os
import pathlib
import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require
import gen
import history
import ref
from c03_design import make_breaks
from c13_time import dy_exact

PROPERTY = 'C14'
SCALE = 6         # times the cases of each facet in quick runs
RULE = ('Coefficient arrays, degree ranges, times, spline orders, headers, '
        'comment characters and leap-year conventions are drawn; files are '
        'written and parsed by an independent reader and writer. '
        'Non-trivial: several degrees or several snapshots.')
ASSUMPTIONS = ['Files carry 8 decimals, so that coefficients agree to 5e-9 nT '
               'and times to 5e-9 years.',
               'Splines of order two or higher are continuously '
               'differentiable up to their degree minus one (no information '
               'on jumps in the file).']


def index(nmin, nmax):
    out = []
    for n in range(nmin, nmax + 1):
        out.append((n, 0))
        for m in range(1, n + 1):
            out += [(n, m), (n, -m)]
    return out


def parse(path, comment='#'):
    """Independent reader: header lines, parameters, times, {(n,m): row}."""
    head, body = [], []
    with open(path) as f:
        for line in f:
            (head if line.strip().startswith(comment)
             else body).append(line)
    par = [int(x) for x in body[0].split()]
    times = [float(x) for x in body[1].split()]
    rows = [(int(w[0]), int(w[1]), [float(x) for x in w[2:]])
            for w in map(str.split, body[2:]) if w]
    return head, par, np.array(times), rows


def dyears(mjd, leap):
    """Decimal years by bisection of the exact inverse."""
    if not leap:
        return 2000. + np.asarray(mjd)/365.25
    return np.array([_inv(float(t)) for t in np.ravel(mjd)])


def _inv(t):
    y = int(np.floor(2000 + t/365.2425))
    while float(dy_exact(y)) > t:
        y -= 1
    while float(dy_exact(y + 1)) <= t:
        y += 1
    a, b = float(dy_exact(y)), float(dy_exact(y + 1))
    return y + (t - a)/(b - a)


def s_data(st):
    return st.fixed_dictionaries(dict(
        n=gen.size(st, 5, 300), deg=gen.size(st, 6, 30), salt=gen.salt(st),
        nmin=st.one_of(st.none(), st.integers(1, 6)),
        nmax=st.one_of(st.none(), st.integers(1, 6)),
        order=st.one_of(st.none(), st.integers(1, 6)),
        leap=st.sampled_from([None, True, False]),
        header=st.sampled_from([None, '# one line\n', '# a\n# 1 2 3\n',
                                '#\n\t# b\n']),
        scale=st.sampled_from([1., 1e-6, 4e4, 1e7, 1e12]),
        form=st.sampled_from(['array', 'vector', 'float time', 'list']),
        default=st.booleans(),
        span=st.sampled_from([1e4, 1e6])))


def c_data(case, ctx):
    du = harness.chaosmagpy().data_utils
    n, deg = case['n'], case['deg']
    if case['form'] in ('vector', 'float time'):
        n = 1
    coeffs = case['scale']*fill(case['salt'], n, deg*(deg + 2))
    coeffs.flat[case['salt'] % coeffs.size] = 0.
    time = np.sort(case['span']*fill(case['salt'] + 5, n))
    nmin = 1 if case['nmin'] is None else case['nmin']
    nmax = deg if case['nmax'] is None else min(case['nmax'], deg)
    kw = dict(order=case['order'], leap_year=case['leap'],
              header=case['header'], nmin=case['nmin'],
              nmax=None if case['nmax'] is None else nmax)
    if case['salt'] % 2:
        kw = {k: v for k, v in kw.items() if v is not None}
    arg_c = coeffs[0] if case['form'] in ('vector', 'float time') else coeffs
    arg_t = {'float time': float(time[0]), 'list': time.tolist()}.get(
        case['form'], time)
    with harness.scratch() as d:
        path = os.path.join(d, 'model.shc' if case['default'] else 'x y.shc')
        if not case['default']:
            kw['filepath'] = path
        if nmin > nmax:
            ctx.label('nmin > nmax')
            return rejects('nmin > nmax', du.save_shcfile, arg_t, arg_c,
                           exc=ValueError, **kw)
        harness.used(path, case['salt'])
        du.save_shcfile(arg_t, arg_c, **kw)
        head, par, t, rows = parse(path)
        leap = case['leap'] is not False
        lk = {} if case['leap'] is None else dict(leap_year=case['leap'])
        mjd, back, params = du.load_shcfile(path, **lk)
    order = case['order'] or 1
    ctx.nontrivial(n > 1 or nmax > 1)
    ctx.label(f'form={case["form"]}', f'leap={case["leap"]}',
              'degree range' if nmin > 1 or nmax < deg else 'all degrees')
    require(par == [nmin, nmax, n, order, order - 1],
            f'parameter line {par}, expected '
            f'{[nmin, nmax, n, order, order - 1]}')
    if case['header']:
        want = case['header'].splitlines(True)
        require(head[:len(want)] == want, 'header not at the top of the file')
    agree(t, dyears(time, leap), 6e-9, 'times in the file', scale=1.)
    idx = index(nmin, nmax)
    require([r[:2] for r in rows] == idx, 'degrees and orders in the file')
    sub = coeffs[:, nmin**2 - 1:(nmax + 1)**2 - 1]
    agree(np.array([r[2] for r in rows]), sub.T, 5.1e-9,
          'coefficients in the file',
          scale=1. + 1e-7*np.abs(sub.T))
    # and back
    agree(mjd, time, 2.3e-6, 'times loaded', scale=1.)
    agree(back, sub.T, 5.1e-9, 'coefficients loaded',
          scale=1. + 1e-7*np.abs(sub.T))
    e = dict(SHC=os.path.basename(path), nmin=nmin, nmax=nmax, N=n,
             order=order, step=order - 1)
    require(dict(params) == e, f'parameters {params}, expected {e}')


def s_read(st):
    return st.fixed_dictionaries(dict(
        n=gen.size(st, 6, 300), nmin=st.integers(1, 4), extra=st.integers(0, 3),
        salt=gen.salt(st), order=st.integers(1, 6),
        comment=st.sampled_from([None, '#', '%', ['#', '!'], 'c']),
        leap=st.sampled_from([None, True, False]),
        blank=st.sampled_from([' ', '   ', '\t', ' \t ']),
        fmt=st.sampled_from(['%.3f', '%12.5f', '%.10e', '%d', '%+.2f']),
        where=st.integers(0, 3),
        eol=st.sampled_from(['\n', '\n', '\r\n']),
        empty=st.lists(st.tuples(st.integers(0, 30), st.sampled_from(
            ['', ' ', '\t', '  \t '])), max_size=3)))


def c_read(case, ctx):
    du = harness.chaosmagpy().data_utils
    n, nmin = case['n'], case['nmin']
    nmax = nmin + case['extra']
    idx = index(nmin, nmax)
    val = 3e4*fill(case['salt'], len(idx), n)
    years = 1900 + np.cumsum(1 + 5*np.abs(fill(case['salt'] + 1, n)))
    if case['fmt'] == '%d':
        years = np.floor(years)
    com = case['comment'] or '#'
    mark = com[-1] if isinstance(com, list) else com
    b, f = case['blank'], case['fmt']
    com_line = [f'{mark} comment 1 2 3\n', f'  {mark}indented\n'][
        case['salt'] % 2]
    lines = [com_line, b.join(map(str, [nmin, nmax, n, case['order'],
                                        case['order'] - 1])) + '\n',
             b + b.join('%.6f' % y for y in years) + '\n']
    for (i, m), row in zip(idx, val):
        lines.append(b.join([str(i), str(m)] + [f % x for x in row]) + '\n')
    if case['where']:
        lines.insert(min(case['where'] + 1, len(lines)), com_line)
    for at, space in case['empty']:
        lines.insert(at % (len(lines) + 1), space + '\n')
    num = np.array([[float(f % x) for x in row] for row in val])
    yrs = np.array([float('%.6f' % y) for y in years])
    with harness.scratch() as d:
        path = os.path.join(d, 'sub.dir')
        os.mkdir(path)
        path = os.path.join(path, 'm.shc')
        with open(path, 'w', newline=case['eol']) as fh:
            fh.writelines(lines)
        if case['salt'] % 3 == 0:
            path = pathlib.Path(path)
        kw = {}
        if case['leap'] is not None:
            kw['leap_year'] = case['leap']
        if case['comment'] is not None:
            kw['comment'] = (tuple(com) if isinstance(com, list) else com)
        t, c, p = du.load_shcfile(path, **kw)
    ctx.nontrivial(n > 1)
    ctx.label('empty lines' if case['empty'] else 'no empty line',
              f'end of line {case["eol"]!r}')
    ctx.label(f'comment={mark}', 'comment inside' if case['where'] else
              'comment on top')
    agree(c, num, 1e-15, 'coefficients')
    e = (np.array([float(dy_exact(y)) for y in yrs])
         if case['leap'] is not False else (yrs - 2000)*365.25)
    agree(t, e, 1e-12, 'times', scale=1e5)
    require(p == dict(SHC='m.shc', nmin=nmin, nmax=nmax, N=n,
                      order=case['order'], step=case['order'] - 1),
            f'parameters {p}')


def s_model(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 6), pieces=gen.size(st, 5, 200),
        deg=gen.size(st, 4, 14), salt=gen.salt(st),
        nmin=st.one_of(st.none(), st.integers(1, 4)),
        nmax=st.one_of(st.none(), st.integers(1, 4)),
        leap=st.sampled_from([None, True, False]),
        header=st.sampled_from([None, '# my header\n']),
        name=st.sampled_from([None, 'Name']),
        source=st.sampled_from([None, 'internal', 'external']),
        chaos=st.booleans()))


def spline_model(case, cp, cls=None):
    """B-spline coefficients, breaks, and the model made of them."""
    k, p, D = case['order'], case['pieces'], case['deg']*(case['deg'] + 2)
    breaks = make_breaks(case['salt'], p + 1, -3000., 2000.*p,
                         short=False)
    knots = np.array([breaks[0]]*(k - 1) + list(breaks)
                     + [breaks[-1]]*(k - 1))
    coef = 1e4*fill(case['salt'] + 3, knots.size - k, D)
    model = cp.chaos.BaseModel.from_bspline('model', knots, coef, k,
                                            source=case['source'])
    return breaks, knots, coef, model


def c_model(case, ctx):
    cp = harness.chaosmagpy()
    k = case['order']
    breaks, knots, coef, model = spline_model(case, cp)
    deg = case['deg']
    nmin = 1 if case['nmin'] is None else min(case['nmin'], deg)
    nmax = deg if case['nmax'] is None else max(min(case['nmax'], deg), nmin)
    kw = dict(nmin=None if case['nmin'] is None else nmin,
              nmax=None if case['nmax'] is None else nmax,
              leap_year=case['leap'], header=case['header'])
    kw = {a: b for a, b in kw.items() if b is not None}
    lk = {} if case['leap'] is None else dict(leap_year=case['leap'])
    with harness.scratch() as d:
        path = os.path.join(d, 'test.v1.shc')
        harness.used(path, case['salt'])
        model.to_shc(path, **kw)
        head, par, years, rows = parse(path)
        if case['name']:
            lk['name'] = case['name']
        if case['source']:
            lk['source'] = case['source']
        if case['chaos']:
            lk.pop('source', None)
            full = cp.CHAOS.from_shc(path, **lk)
            single = k == 1 and case['pieces'] == 1
            back = full.model_static if single else full.model_tdep
            require(back is not None and full.name == (case['name']
                                                       or 'test.v1'),
                    'part or name of the loaded CHAOS model')
            require((full.model_tdep if single else full.model_static)
                    is None, 'only one part is in the file')
        else:
            back = cp.chaos.BaseModel.from_shc(path, **lk)
            require(back.name == (case['name'] or 'test.v1'),
                    f'name {back.name}')
            require(back.source == (case['source'] or 'internal'), 'source')
    ctx.nontrivial(case['pieces'] > 1 or deg > 1)
    ctx.label(f'order={k}', 'CHAOS' if case['chaos'] else 'BaseModel',
              'degree range' if nmin > 1 or nmax < deg else 'all degrees')
    step = max(k - 1, 1)
    N = case['pieces'] if k == 1 else case['pieces']*step + 1
    require(par == [nmin, nmax, N, k, k - 1], f'parameter line {par}')
    if case['header']:
        require(head[0] == case['header'], 'header')
    # sampling sites: break points and equidistant sites in between
    sites = np.concatenate([a + (b - a)*np.arange(step)/step for a, b in
                            zip(breaks[:-1], breaks[1:])]
                           + ([] if k == 1 else [breaks[-1:]]))
    agree(years, dyears(sites, bool(case['leap'])), 6e-9, 'sites', scale=1.)

    def spline(t):
        v = np.array([ref.bspline_basis(knots, k, x) for x in t]) @ coef
        lo, hi = nmin**2 - 1, (nmax + 1)**2 - 1
        v[:, :lo] = 0.
        return v[:, :hi]
    v = spline(sites)[:, nmin**2 - 1:]
    require([r[:2] for r in rows] == index(nmin, nmax), 'degrees, orders')
    agree(np.array([r[2] for r in rows]).T, v, 6e-9, 'values in the file',
          scale=2.)
    # loaded model: the same function of time
    mid = np.concatenate([a + (b - a)*np.array([.1, .37, .5, .83, .95])
                          for a, b in zip(breaks[:-1], breaks[1:])])
    out = back.synth_coeffs(mid)
    agree(out, spline(mid), 1e-3 if k > 1 else 1e-8,
          'coefficients of the loaded model', scale=1.)
    require(back.order == k and back.nmax == nmax, 'order or degree')
    if k > 1:
        agree(back.breaks, breaks, 3e-6, 'breaks of the loaded model',
              scale=1.)


def s_chaos(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(2, 6), pieces=gen.size(st, 4, 150),
        deg=gen.size(st, 3, 14), top=st.integers(1, 4), salt=gen.salt(st),
        leap=st.sampled_from([None, True, False]),
        which=st.sampled_from(['default', 'tdep', 'static', 'static only']),
        source=st.none()))


def c_chaos(case, ctx):
    cp = harness.chaosmagpy()
    breaks, knots, coef, model = spline_model(case, cp)
    n_t, n_s = case['deg'], case['deg'] + case['top']
    g = 10*fill(case['salt'] + 9, n_s*(n_s + 2))
    g[:n_t*(n_t + 2)] = 0.
    only = case['which'] == 'static only'
    full = cp.CHAOS(breaks, case['order'],
                    coeffs_tdep=None if only else model.coeffs,
                    coeffs_static=g if case['salt'] % 2 else g[None, None],
                    name='CHAOS-x')
    which = 'static' if only else case['which']
    kw = {} if which == 'default' else dict(model=which)
    lk = {} if case['leap'] is None else dict(leap_year=case['leap'])
    with harness.scratch() as d:
        path = os.path.join(d, 'f.shc')
        full.save_shcfile(path, **kw, **lk)
        head, par, years, rows = parse(path)
        back = cp.load_CHAOS_shcfile(path, **lk)
    ctx.nontrivial()
    ctx.label(case['which'])
    require(head[0] == '# CHAOS-x\n', 'name of the model in the header')
    if which == 'static':
        lo = 1 if only else n_t + 1
        require(par == [lo, n_s, 1, 1, 0], f'parameter line {par}')
        agree(years, dyears(breaks[:1], bool(case['leap'])), 6e-9, 'time',
              scale=1.)
        require(back.model_tdep is None, 'static part only')
        agree(back.synth_coeffs_static(), g, 6e-9, 'static coefficients')
    else:
        require(par[:2] == [1, n_t], f'parameter line {par}')
        require(back.model_static is None, 'time-dependent part only')
        t = breaks[0] + (breaks[-1] - breaks[0])*np.linspace(.01, .99, 9)
        e = np.array([ref.bspline_basis(knots, case['order'], x)
                      for x in t]) @ coef
        agree(back.synth_coeffs_tdep(t), e, 1e-3, 'coefficients', scale=1.)


def s_sites(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 6), pieces=gen.size(st, 5, 200),
        deg=gen.size(st, 3, 14), nmin=st.integers(1, 3), salt=gen.salt(st),
        extra=st.integers(0, 4), leap=st.sampled_from([None, True, False]),
        source=st.none(), step0=st.booleans()))


def c_sites(case, ctx):
    # file of somebody else, with sites beyond the last break point
    cp = harness.chaosmagpy()
    breaks, knots, coef, _ = spline_model(case, cp)
    k, p = case['order'], case['pieces']
    nmin = min(case['nmin'], case['deg'])
    step = max(k - 1, 1)
    lo = nmin**2 - 1
    if k == 1:
        sites, vals = breaks[:-1], coef
    else:
        sites = np.concatenate([a + (b - a)*np.arange(step)/step for a, b
                                in zip(breaks[:-1], breaks[1:])]
                               + [breaks[-1:]])
        vals = np.array([ref.bspline_basis(knots, k, x)
                         for x in sites]) @ coef
        extra = min(case['extra'], step - 1)
        sites = np.append(sites, breaks[-1] + 10.*np.arange(1, extra + 1))
        vals = np.concatenate((vals, 1e4*fill(case['salt'] + 8, extra,
                                              coef.shape[1])))
    leap = bool(case['leap'])
    years = dyears(sites, leap)
    with harness.scratch() as d:
        path = os.path.join(d, 'f.shc')
        with open(path, 'w') as f:
            f.write('# other\n%d %d %d %d %d\n' % (
                nmin, case['deg'], sites.size, k,
                1 if k == 1 and not case['step0'] else k - 1))
            f.write(' '.join(repr(float(y)) for y in years) + '\n')
            for (n, m), row in zip(index(nmin, case['deg']), vals.T[lo:]):
                f.write(' '.join([str(n), str(m)]
                                 + [repr(float(x)) for x in row]) + '\n')
        kw = {} if case['leap'] is None else dict(leap_year=case['leap'])
        back = cp.chaos.BaseModel.from_shc(path, **kw)
    ctx.nontrivial(p > 1)
    ctx.label(f'order={k}', 'extra sites' if sites.size > p*step + (k > 1)
              else 'no extra sites')
    t = np.concatenate([a + (b - a)*np.array([.1, .45, .8])
                        for a, b in zip(breaks[:-1], breaks[1:])])
    e = np.array([ref.bspline_basis(knots, k, x) for x in t]) @ coef
    e[:, :lo] = 0.
    agree(back.synth_coeffs(t), e, 1e-6, 'coefficients', scale=1e1)
    if k > 1:
        agree(back.breaks, breaks, 1e-8, 'breaks', scale=1e2)


def s_write(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 13), pieces=st.integers(1, 6),
        deg=st.integers(1, 2), salt=gen.salt(st),
        lo=gen.f(st, -1e4, 1e4), length=gen.f(st, .5, 500.)))


def c_write(case, ctx):
    # any piecewise polynomial, of high order also
    cp = harness.chaosmagpy()
    k, p, D = case['order'], case['pieces'], case['deg']*(case['deg'] + 2)
    gaps = case['length']*gen.spread(case['salt'], (p,), .5, 1.5)
    breaks = np.cumsum(np.append(case['lo'], gaps))
    powers = np.arange(k - 1, -1, -1.)[:, None, None]
    coeffs = fill(case['salt'] + 1, k, p, D) / gaps[:, None]**powers
    model = cp.chaos.BaseModel('any', breaks=breaks, order=k, coeffs=coeffs)
    with harness.scratch() as d:
        path = os.path.join(d, 'f.shc')
        model.to_shc(path, leap_year=True)
        head, par, years, rows = parse(path)
    step = max(k - 1, 1)
    x = np.arange(step)/step
    ctx.nontrivial(k > 1)
    ctx.label(f'order={k}')
    N = p*step + (k > 1)
    require(par == [1, case['deg'], N, k, k - 1], f'parameter line {par}')
    sites = (breaks[:-1, None] + gaps[:, None]*x).ravel()
    # coefficients in powers of the time since the break
    vals = [np.sum(coeffs[:, i]*(gaps[i]*u)**powers[:, 0], axis=0)
            for i in range(p) for u in x]
    if k > 1:
        sites = np.append(sites, breaks[-1])
        vals.append(np.sum(coeffs[:, -1]*gaps[-1]**powers[:, 0], axis=0))
    agree(years, dyears(sites, True), 6e-9, 'sites', scale=1.)
    agree(np.array([r[2] for r in rows]).T, np.array(vals), 6e-9,
          'values in the file', scale=2.)


FACETS = [
    Facet('data', s_data, c_data, 1200),
    Facet('read', s_read, c_read, 800),
    Facet('model', s_model, c_model, 500),
    Facet('sites', s_sites, c_sites, 400),
    Facet('chaos', s_chaos, c_chaos, 250),
    Facet('write', s_write, c_write, 600),
    history.facet('C14', 80),
]
