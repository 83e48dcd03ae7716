import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require
import gen
import ref
from c01_synthesis import expected
from c15_timedep import pp
from c16_extrapolation import KEY, model_at
from c21_external import gsm_coeffs, make_model, prepare, sm_coeffs

PROPERTY = 'C26'
RULE = ('Models, truncations, derivatives, radii, positions and plot options '
        'are drawn; the figures are made with Matplotlib (Agg) and the '
        'numbers are taken from the artists of the figure. Non-trivial: '
        'field of at least two degrees.')
ASSUMPTIONS = ['Only data, limits of the first map, titles and units are '
               'read from the figures, no pixels.',
               'The time axis of a plot is exact up to a millisecond.']


def figure():
    import matplotlib.pyplot as plt
    fig = plt.gcf()
    fig_axes = list(fig.axes)
    return fig_axes


class figures:
    """Plots made in the block are removed afterwards."""

    def __enter__(self):
        import matplotlib.pyplot as plt
        plt.close('all')

    def __exit__(self, *args):
        import matplotlib.pyplot as plt
        plt.close('all')


def bare(text):
    return ''.join(c for c in text if c not in '{} ')


UNITS = ['nT', r'$\mathrmnT/\mathrmyr$', r'$\mathrmnT/\mathrmyr^2$',
         r'$\mathrmnT/\mathrmyr^3$']


def setup(case, cp):
    case['dim'] = case['deg']*(case['deg'] + 2)
    return pp(case)


def options(case, *names):
    return {k: case[k] for k in names if case.get(k) is not None}


def common(st, **more):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 5), pieces=st.integers(1, 3),
        deg=gen.size(st, 4, 56, 1, 12), salt=gen.salt(st), uniform=st.booleans(),
        nmax=st.one_of(st.none(), st.none(), st.none(), st.integers(1, 5),
                       st.integers(1, 5), st.integers(6, 60)),
        deriv=st.sampled_from([None, 0, 1, 2]),
        source=st.sampled_from(['internal', 'external']),
        r=gen.f(st, 5000., 9000.), **more))


def s_series(st):
    return common(st, theta=gen.f(st, 0., 180.), phi=gen.phi(st),
                  via=st.sampled_from(['model', 'chaos']),
                  one=st.booleans(), mine=st.booleans(),
                  extrapolate=st.sampled_from([None, 'constant', 'off']))


def days_of(x):
    x = np.asarray(x)
    if x.dtype.kind != 'M':
        x = np.array([np.datetime64(v) for v in x])
    x = x.astype('datetime64[ns]')
    return (x - np.datetime64('2000-01-01', 'ns')).astype(float)/86400e9


def c_series(case, ctx):
    cp = harness.chaosmagpy()
    breaks, coeffs = setup(case, cp)
    d = case['deriv'] or 0
    pos = [case['r'], case['theta'], case['phi']]
    given = [np.array([x]) for x in pos] if case['one'] else pos
    kw = options(case, 'nmax', 'deriv', 'extrapolate')
    titles = None
    if case['mine']:
        titles = ['one', 'two', 'three']
        kw.update(titles=titles, ylabel='mine', layout=(1, 3), color='k')
    nmax = min(case['nmax'] or case['deg'], case['deg'])
    ctx.nontrivial(nmax > 1)
    ctx.label(case['via'], f'deriv={case["deriv"]}')
    src = case['source'] if case['via'] == 'model' else 'internal'
    with figures():
        if case['via'] == 'model':
            m = cp.chaos.BaseModel('m', breaks, case['order'], coeffs,
                                   source=src)
            m.plot_timeseries(*given, **kw)
        else:
            m = cp.CHAOS(breaks, case['order'], coeffs_tdep=coeffs)
            m.plot_timeseries_tdep(*given, **kw)
        axes = figure()
        lines = [a.lines[0] for a in axes if len(a.lines)]
        require(len(axes) == 3 and len(lines) == 3,
                'three panels with a line each')
        n = len(lines[0].get_ydata(orig=True))
        t = np.linspace(breaks[0], breaks[-1], n)
        c = model_at(breaks, coeffs, t, 9, d)[..., :nmax*(nmax + 2)]
        e, _ = expected(c, *pos, 1, nmax, nmax, src, ref.R_REF)
        h = np.min(np.diff(breaks))/2.
        _, sc = expected(np.full(c.shape, 1e3*6*4.**6*(6*365.25/h)**d), *pos,
                         1, nmax, nmax, src, ref.R_REF)
        for i, (a, line, b) in enumerate(zip(axes, lines, e)):
            x = days_of(line.get_xdata(orig=True))
            agree(x, t, 1e-3/86400, 'time axis', scale=1.)
            # the polynomial that counts at a break is decided by C15
            inner = np.min(np.abs(t[:, None] - breaks[1:-1]), axis=1,
                           initial=1.) > 1e-6
            inner &= (t != breaks[-1]) & (t != breaks[0])
            y = np.asarray(line.get_ydata(orig=True), float)
            require(y.shape == (n,), f'shape of the values {y.shape}')
            agree(y[inner], b[inner], 1e-12, f'component {i} of the time '
                  'series', scale=sc[inner])
            name = ['B_r', 'B_\\theta', 'B_\\phi'][i]
            require(a.get_title() == titles[i] if titles else
                    name in a.get_title(), f'title {a.get_title()!r}')
            unit = bare('mine' if titles else UNITS[d])
            require(bare(a.get_ylabel()) == unit,
                    f'units {a.get_ylabel()!r} for deriv={d}')


def s_maps(st):
    return common(st, x=gen.f(st, .02, .98), one=st.booleans(),
                  via=st.sampled_from(['model', 'tdep', 'static']),
                  mine=st.booleans(), limits=st.sampled_from(
                      [None, None, 'vmax', 'vmin', 'skew', 'limiter']))


def mesh_values(axes):
    """Latitude, longitude, value and panel of the maps."""
    out = []
    for a in axes:
        meshes = [q for q in a.collections if hasattr(q, 'get_coordinates')
                  and a.name == 'mollweide']
        for q in meshes:
            xy = np.asarray(q.get_coordinates())
            v = np.asarray(q.get_array(), float)
            v = v.reshape(v.shape[0], -1)
            require(xy.shape[:2] == (v.shape[0] + 1, v.shape[1] + 1),
                    'mesh does not fit to the values')
            mid = .25*(xy[1:, 1:] + xy[:-1, 1:] + xy[1:, :-1] + xy[:-1, :-1])
            out.append((np.degrees(mid[..., 1]), np.degrees(mid[..., 0]), v,
                        a, q))
    return out


def check_maps(case, coeffs_by_source, r, size, titles, unit, limits,
               cmap=None):
    axes = figure()
    maps = mesh_values(axes)
    require(len(maps) == 3, f'{len(maps)} maps instead of three')
    bars = [a for a in axes if a.name != 'mollweide']
    require(len(bars) == 3, 'a colorbar for each map')
    for i, (lat, lon, v, a, q) in enumerate(maps):
        require(np.ptp(lat) > 170 and np.ptp(lon) > 350
                and v.shape[0] > 50 and v.shape[1] > 100,
                'map does not cover the globe')
        j = (np.abs(fill(case['salt'] + i, 40))*v.shape[0]).astype(int)
        k = (np.abs(fill(case['salt'] + 9 + i, 40))*v.shape[1]).astype(int)
        j, k = np.append(j, [0, -1, 0]), np.append(k, [0, -1, -1])
        e, sc = 0., 0.
        for src, c in coeffs_by_source:
            n = int(np.sqrt(c.size + 1)) - 1
            B, _ = expected(c, r, 90 - lat[j, k], lon[j, k], 1, n, n, src,
                            ref.R_REF)
            e = e + B[i]
            _, s = expected(np.full(c.shape, size), r, 90 - lat[j, k],
                            lon[j, k], 1, n, n, src, ref.R_REF)
            sc = sc + s
        agree(v[j, k], e, 1e-9, f'component {i} of the map', scale=sc)
        require(titles[i] in a.get_title(),
                f'title {a.get_title()!r}, expected {titles[i]!r}')
        labels = bare(bars[i].get_ylabel())
        require(labels == bare(unit), f'units {labels!r}')
        if cmap:
            require(q.get_cmap().name == cmap, f'colors {q.get_cmap().name}')
        lo, hi = q.get_clim()
        top = np.max(np.abs(v))
        low, high = limits(v) if limits else (-top, top)
        # Matplotlib widens an empty interval
        if i == 0 and high - low > 1e-6:
            agree(np.array([lo, hi]), np.array([low, high]), 1e-9,
                  'limits of the colors', scale=high - low)


def c_maps(case, ctx):
    cp = harness.chaosmagpy()
    breaks, coeffs = setup(case, cp)
    d, r = case['deriv'] or 0, case['r']
    t = breaks[0] + (breaks[-1] - breaks[0])*case['x']
    given = (np.array([t]), np.array([r])) if case['one'] else (t, r)
    kw = options(case, 'nmax', 'deriv')
    src = case['source'] if case['via'] == 'model' else 'internal'
    nmax = min(case['nmax'] or case['deg'], case['deg'])
    titles = ['B_r', 'B_\\theta', 'B_\\phi']
    unit, limits, cmap = UNITS[d], None, 'PuOr_r'
    if case['via'] == 'static':
        kw.pop('deriv', None)
        d, unit, limits, cmap = 0, 'nT', lambda v: (-200., 200.), 'nio'
    if case['mine']:
        titles, unit, cmap = list('ABC'), 'my', 'viridis'
        limits = lambda v: (-7., 7.)  # noqa
        kw.update(titles=titles, label=unit, vmax=7., vmin=-7.,
                  cmap=cmap, layout=(1, 3))
    elif case.get('limits') and case['via'] != 'static':
        # the limits that are not given have the default value
        given_limits, limits = dict(
            vmax=(dict(vmax=3e6), lambda v: (-np.max(np.abs(v)), 3e6)),
            vmin=(dict(vmin=-2e6), lambda v: (-2e6, np.max(np.abs(v)))),
            skew=(dict(vmin=-1., vmax=5.), lambda v: (-1., 5.)),
            limiter=(dict(limiter=lambda x: 2*np.mean(np.abs(x)) + 1.),
                     lambda v: (-2*np.mean(np.abs(v)) - 1.,
                                2*np.mean(np.abs(v)) + 1.)),
        )[case['limits']]
        kw.update(given_limits)
    ctx.nontrivial(nmax > 1)
    ctx.label(case['via'], f'deriv={case["deriv"]}',
              'own options' if case['mine'] else 'default options')
    h = np.min(np.diff(breaks))/2.
    size = 1e3*6*4.**6*(6*365.25/h)**d
    c = model_at(breaks, coeffs, t, 9, d)
    with figures():
        if case['via'] == 'model':
            m = cp.chaos.BaseModel('m', breaks, case['order'], coeffs,
                                   source=src)
            m.plot_maps(*given, **kw)
        elif case['via'] == 'tdep':
            m = cp.CHAOS(breaks, case['order'], coeffs_tdep=coeffs)
            m.plot_maps_tdep(*given, **kw)
        else:
            c = coeffs[-1, 0]
            m = cp.CHAOS(breaks, coeffs_static=c)
            m.plot_maps_static(given[1], **kw)
        check_maps(case, [(src, c[:nmax*(nmax + 2)])], r, size, titles, unit,
                   limits, cmap)


def s_ext(st):
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 2), k=st.integers(1, 3), scaled=st.booleans(),
        builtin=st.booleans(), salt=gen.salt(st), t=gen.f(st, -400., 400.),
        r=gen.f(st, 6300., 7000.), nmax=st.one_of(st.none(),
                                                  st.integers(1, 3)),
        reference=st.sampled_from([None, 'all', 'GSM', 'SM', 'gsm', 'sm']),
        source=st.sampled_from([None, 'all', 'external', 'internal',
                                'External'])))


def c_ext(case, ctx):
    cp = harness.chaosmagpy()
    with harness.scratch() as folder:
        gsm, sm = prepare(case, folder)
        m, b, v = make_model(case, gsm, sm)
        with open('RC.dat', 'w') as f:
            f.write('-500. 1. 5. 2. D\n0. 3. -7. 4. P\n900. 2. 9. 1. D\n')
        cp.basicConfig['file.RC_index'] = 'RC.dat'
        t = case['t']
        rc = [np.interp(t, [-500., 0., 900.], x) for x in
              ([5., -7., 9.], [2., 4., 1.])]
        src = (case['source'] or 'all').lower()
        rf = (case['reference'] or 'all').lower()
        parts = []
        n = min(case['nmax'] or case['n'], case['n'])
        for name, c in (('gsm', gsm_coeffs(t, gsm)),
                        ('sm', sm_coeffs(t, sm, b, v, *rc))):
            if rf in ('all', name):
                parts += [(k, x[:n*(n + 2)]) for k, x in c.items()
                          if src in ('all', k)]
        ctx.nontrivial(n > 1)
        ctx.label(f'reference={rf}', f'source={src}')
        kw = options(case, 'reference', 'source', 'nmax')
        with figures():
            m.plot_maps_external(t, case['r'], **kw)
            check_maps(case, parts, case['r'], 3e3,
                       ['B_r', 'B_\\theta', 'B_\\phi'], 'nT', None)
        if case['salt'] % 5 == 0:
            with figures():
                rejects('unknown reference', m.plot_maps_external, t,
                        case['r'], reference='geo', exc=ValueError)


def s_spec(st):
    return common(st, x=gen.f(st, .02, .98), zero=st.booleans(), top=st.one_of(
        st.none(), st.integers(1, 120)),
                  radius=st.one_of(st.none(), gen.radius(st)),
                  via=st.sampled_from(['model', 'function']))


def c_spec(case, ctx):
    cp = harness.chaosmagpy()
    with figures():
        if case['via'] == 'model':
            breaks, coeffs = setup(case, cp)
            t = breaks[0] + (breaks[-1] - breaks[0])*case['x']
            m = cp.chaos.BaseModel('m', breaks, case['order'], coeffs,
                                   source=case['source'])
            m.plot_power_spectrum(t, **options(case, 'nmax', 'deriv',
                                               'radius'))
            nmax = min(case['nmax'] or case['deg'], case['deg'])
            c = model_at(breaks, coeffs, t, 9, case['deriv'] or 0)
            rho = (case['radius'] or ref.R_REF)/ref.R_REF
            e = np.array([
                np.sum(c[n**2 - 1:(n + 1)**2 - 1]**2)
                * ((n + 1)*rho**-(2*n + 4.) if case['source'] == 'internal'
                   else n*rho**(2*n - 2.)) for n in range(1, nmax + 1)])
            unit = '(' + UNITS[case['deriv'] or 0] + ')$^2$'
        else:
            e = np.abs(fill(case['salt'], case.get('top') or case['deg'] + 2))
            if case['zero']:
                e[case['salt'] % e.size] = 0.
            given = e.copy()
            cp.plot_utils.plot_power_spectrum(given, ylabel='u')
            agree(given, e, 0., 'spectrum after plotting')
            unit = 'u'
        ctx.nontrivial(e.size > 1)
        ctx.label(case['via'], case['source'])
        a, = figure()
        line, = a.lines
        agree(line.get_xdata(orig=True), np.arange(1., e.size + 1), 0.,
              'degrees')
        y = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(
            line.get_ydata(orig=True), float)), 0.)
        agree(y, e, 1e-8, 'spectrum', scale=e + 1e-20)
        require(a.get_yscale() == 'log', 'scale of the axis')
        require(bare(a.get_ylabel()) == bare(unit),
                f'units {a.get_ylabel()!r}')


def s_func(st):
    return st.fixed_dictionaries(dict(
        n=st.integers(1, 4), cols=st.integers(1, 3), size=st.integers(1, 6),
        salt=gen.salt(st), start=st.sampled_from([0., 7305.5, -40000.,
                                                  60000.25]),
        mode=st.sampled_from(['default', 'layout', 'bad']),
        kind=st.sampled_from(['series', 'series', 'maps']),
        width=st.sampled_from([None, None, 4., 12.5]),
        figsize=st.sampled_from([None, None, 'none', [5., 4.], [9.5, 3.]]),
        coast=st.sampled_from([0, 0, 1, 3]), before=st.booleans()))


class coastline:
    """A file with a few lines; afterwards, the lines in a map."""

    def __init__(self, cp, n, salt):
        import shapefile
        self.lines = []
        if n == 0:
            return
        for i in range(n):
            k = 2 + (salt + i) % 4
            self.lines.append(np.round(np.stack((
                gen.spread(salt + i, (k,), -179., 179.),
                gen.spread(salt + i + 9, (k,), -85., 85.)), axis=1), 5))
        with shapefile.Writer('coast', shapeType=shapefile.POLYLINE) as w:
            w.field('name', 'C')
            for x in self.lines:
                w.line([x.tolist()])
                w.record('a')
        cp.basicConfig['file.shp_coastline'] = 'coast.shp'

    def check(self, ax):
        if not self.lines:
            require(len(ax.lines) > 50, 'no coastlines in the map')
            for line in ax.lines:
                lon, lat = (np.asarray(x, float) for x in line.get_data())
                require(np.all(np.abs(lon) < np.pi + 1e-6)
                        and np.all(np.abs(lat) < np.pi/2 + 1e-6),
                        'coastlines are not on the globe')
            return
        require(len(ax.lines) == len(self.lines), 'coastlines of the map')
        for line, x in zip(ax.lines, self.lines):
            agree(np.degrees(np.stack(line.get_data(), axis=1)), x, 1e-9,
                  'coastline', scale=180.)


def c_func(case, ctx):
    with harness.scratch():
        _func(case, ctx)


def _func(case, ctx):
    """The plot functions: as many panels as arrays, each with its data."""
    import matplotlib
    import matplotlib.pyplot as plt
    cp = harness.chaosmagpy()
    pu = cp.plot_utils
    n, s = case['n'], case['salt']
    titles = [f'panel {i}' for i in range(n)]
    kw = dict(titles=titles)
    if case['mode'] == 'layout':
        kw['layout'] = (1, n)
    elif case['mode'] == 'bad':
        kw['layout'] = (n + 1, 1)
    if case.get('width'):
        cp.basicConfig['plots.figure_width'] = case['width']
    size, width = case.get('figsize'), cp.basicConfig['plots.figure_width']
    if size == 'none':      # None is the default
        kw['figsize'] = size = None
    elif size:
        kw['figsize'] = tuple(size)
    coast = coastline(cp, case.get('coast', 0), s)
    ctx.nontrivial(n > 1)
    ctx.label(case['kind'], case['mode'])
    if case['kind'] == 'series':
        t = case['start'] + np.cumsum(gen.spread(s, (case['size'],), .1, 9.))
        args = [fill(s + i, case['size'], case['cols']) for i in range(n)]
        call = pu.plot_timeseries, t
        kw['ylabel'] = 'unit'
    else:
        th = np.linspace(10., 170., case['size'] + 2)
        ph = np.linspace(-170., 160., case['size'] + 4)
        if s % 3 == 1:
            th = th[::-1].copy()
        if s % 5 == 1:
            ph = ph[::-1].copy()
        args = [fill(s + i, th.size, ph.size) for i in range(n)]
        call = pu.plot_maps, th, ph
        kw['label'] = 'unit'
    with figures():
        if case['mode'] == 'bad':
            rejects('layout', *call, *args, **kw, exc=ValueError)
            return
        if case.get('before'):      # a figure of the user
            plt.plot([1., 2.], [3., 5.])
            mine = plt.gcf()
        style = dict(matplotlib.rcParams)
        call[0](*call[1:], *args, **kw)
        require(dict(matplotlib.rcParams) == style, 'settings of Matplotlib')
        if case.get('before'):
            require(plt.gcf() is not mine and len(mine.axes) == 1
                    and len(mine.axes[0].lines) == 1
                    and len(plt.get_fignums()) == 2,
                    'another figure was changed')
        got = plt.gcf().get_size_inches()
        agree(got if size else got[:1], size or [width], 1e-9,
              'size of the figure', scale=10.)
        axes = figure()
        if case['kind'] == 'series':
            require(len(axes) == n, f'{len(axes)} panels')
            for i, a in enumerate(axes):
                require(len(a.lines) == case['cols'], 'lines of the panel')
                for j, line in enumerate(a.lines):
                    agree(line.get_ydata(orig=True), args[i][:, j], 0.,
                          f'panel {i}, column {j}')
                    agree(days_of(line.get_xdata(orig=True)), t, 1e-3/86400,
                          'time axis', scale=1.)
                require(a.get_title() == titles[i], 'title of the panel')
                require(a.get_ylabel() == 'unit', 'label of the panel')
            lay = (1, n) if case['mode'] == 'layout' else (n, 1)
            g = axes[0].get_subplotspec().get_gridspec()
            require((g.nrows, g.ncols) == lay, 'layout')
        else:
            maps = mesh_values(axes)
            require(len(maps) == n, f'{len(maps)} maps')
            for i, (lat, lon, v, a, q) in enumerate(maps):
                agree(v, args[i], 0., f'map {i}')
                agree(lat, np.repeat(90 - th[:, None], ph.size, 1), 1e-10,
                      'latitude', scale=90.)
                agree(lon, np.repeat(ph[None], th.size, 0), 1e-10,
                      'longitude', scale=180.)
                require(a.get_title() == titles[i], 'title of the map')
                coast.check(a)


FACETS = [
    Facet('series', s_series, c_series, 160, 1200),
    Facet('maps', s_maps, c_maps, 220, 1000),
    Facet('ext', s_ext, c_ext, 110, 700),
    Facet('spec', s_spec, c_spec, 400, 2000),
    Facet('func', s_func, c_func, 160, 1200),
]
