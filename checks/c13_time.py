import calendar
import datetime as dt
from fractions import Fraction as Fr
import numpy as np
import harness
from harness import Facet, agree, as_array, rejects, require
import gen
import history
import large

PROPERTY = 'C13'
SCALE = 3         # times the cases of each facet in quick runs
RULE = ('Calendar dates of the years 1 to 9999 with times of the day down to '
        'nanoseconds are drawn, as integers, broadcast arrays, datetime and '
        'datetime64 in all units; decimal years and modified Julian dates '
        'include year boundaries and their floating-point neighbours. '
        'Non-trivial: a date that is not in 2000 or a time of the day.')
ASSUMPTIONS = ['The proleptic Gregorian calendar.']


def days(y, m, d):
    """Days since 2000-01-01 in the proleptic Gregorian calendar."""
    y -= m <= 2
    era, yoe = divmod(y, 400)
    doy = (153*(m + (-3 if m > 2 else 9)) + 2)//5 + d - 1
    return era*146097 + yoe*365 + yoe//4 - yoe//100 + doy - 730425


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def mlen(y, m):
    return days(y + m//12, m % 12 + 1, 1) - days(y, m, 1)


def date(st, lo=1, hi=9999):
    @st.composite
    def make(draw):
        y = draw(st.one_of(st.integers(lo, hi), st.integers(1900, 2100),
                           st.sampled_from([1900, 2000, 2100, 2004, 1600])))
        m = draw(st.one_of(st.integers(1, 12), st.sampled_from([1, 2, 12])))
        last = mlen(y, m)
        d = draw(st.one_of(st.integers(1, last), st.sampled_from([1, last])))
        h, mi, s = (draw(st.one_of(st.just(0), st.integers(0, k)))
                    for k in (23, 59, 59))
        us, ns = (draw(st.one_of(st.just(0), st.integers(0, 999999))),
                  draw(st.one_of(st.just(0), st.integers(0, 999))))
        return [y, m, d, h, mi, s, us, ns]
    return make()


def exact(c):
    y, m, d, h, mi, s, us, ns = c
    return days(y, m, d) + Fr(((h*60 + mi)*60 + s)*10**9 + us*1000 + ns,
                              86400*10**9)


def s_mjd(st):
    return st.fixed_dictionaries(dict(
        dates=st.lists(date(st), min_size=1, max_size=4),
        form=st.sampled_from(['int', 'array', 'datetime', 'datetimes', 'D',
                              'h', 'm', 's', 'ms', 'us', 'ns', 'keywords',
                              'int32', 'list', 'datetimes2d']),
        nargs=st.integers(1, 8), rows=st.integers(0, 2)))


def c_mjd(case, ctx):
    du = harness.chaosmagpy().data_utils
    form, k = case['form'], case['nargs']
    D = [list(c) for c in case['dates']]
    default = [None, 1, 1, 0, 0, 0, 0, 0]
    if form in ('int', 'array', 'int32', 'list', 'keywords'):
        D = [c[:k] + default[k:] for c in D]
    elif form in ('datetime', 'datetimes', 'datetimes2d', 'us'):
        D = [c[:7] + [0] for c in D]
    else:
        n = ['D', 'h', 'm', 's', 'ms', 'us', 'ns'].index(form)
        keep = {0: 3, 1: 4, 2: 5, 3: 6, 4: 7, 6: 8}[n]
        D = [c[:keep] + default[keep:] for c in D]
        if form == 'ms':
            D = [c[:6] + [c[6]//1000*1000, 0] for c in D]
        if form == 'ns':
            D = [[1710 + c[0] % 500, c[1], min(c[2], 28)] + c[3:] for c in D]
    scalar = form in ('int', 'datetime', 'keywords')
    if scalar:
        D = D[:1]
    cols = list(zip(*D))
    if form in ('int', 'keywords'):
        if form == 'int':
            out = du.mjd2000(*D[0][:k])
        else:
            names = ['year', 'month', 'day', 'hour', 'minute', 'second',
                     'microsecond', 'nanosecond']
            out = du.mjd2000(**dict(zip(names[:k], D[0])))
    elif form in ('array', 'int32', 'list'):
        args = [np.array(c, dtype='int32' if form == 'int32' else int)
                for c in cols[:k]]
        if form == 'list':
            args = [a.tolist() for a in args]
        out = du.mjd2000(*args)
    elif form == 'datetimes2d':
        out = du.mjd2000(np.array([[dt.datetime(*c[:7])] for c in D]))
        require(out.shape == (len(D), 1), f'shape {out.shape}')
        out = out[:, 0]
    elif form in ('datetime', 'datetimes'):
        obj = [dt.datetime(*c[:7]) for c in D]
        out = du.mjd2000(obj[0] if scalar else np.array(obj))
    else:
        epoch = np.datetime64('2000-01-01', form)
        unit = {'D': 86400*10**9, 'h': 3600*10**9, 'm': 60*10**9, 's': 10**9,
                'ms': 10**6, 'us': 10**3, 'ns': 1}[form]
        n = [int(exact(c)*86400*10**9)//unit for c in D]
        step = np.array(n, dtype='int64').astype(f'timedelta64[{form}]')
        if case.get('rows'):
            out = du.mjd2000((epoch + step)[None if case['rows'] == 1 else
                                            (slice(None), None)])
            out = as_array(out, 'mjd2000 of a matrix',
                           (1, len(D)) if case['rows'] == 1 else (len(D), 1))
            out = out.ravel()
        else:
            out = du.mjd2000(epoch + step)
    e = np.array([float(exact(c)) for c in D])
    e = e[0] if scalar else e
    ctx.nontrivial(any(c[0] != 2000 or c[3] for c in D))
    ctx.label(form, f'{k} arguments' if scalar else 'array')
    agree(out, e, 4e-16, f'mjd2000 ({form})')


def s_bc(st):
    return st.fixed_dictionaries(dict(
        y=st.lists(st.integers(-999, 9999), min_size=1, max_size=4),
        m=st.lists(st.integers(1, 12), min_size=1, max_size=4),
        d=st.lists(st.integers(1, 28), min_size=1, max_size=3),
        h=st.one_of(st.integers(0, 23), st.integers(-1000, 1000)),
        mi=st.one_of(st.just(0), st.integers(0, 59), st.integers(-3000, 3000)),
        s=st.one_of(st.just(0), st.integers(0, 59),
                    st.integers(-200000, 200000)),
        us=st.one_of(st.integers(0, 999999), st.integers(-10**10, 10**10)),
        axis=st.integers(0, 5)))


def c_bc(case, ctx):
    du = harness.chaosmagpy().data_utils
    y, m, d = (np.array(case[k]) for k in 'ymd')
    perm = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1),
            (2, 1, 0)][case['axis']]
    sh = [[1]*3 for _ in range(3)]
    for arr, s, p in zip((y, m, d), sh, perm):
        s[p] = arr.size
    out = du.mjd2000(y.reshape(sh[0]), m.reshape(sh[1]), d.reshape(sh[2]),
                     case['h'], case['mi'], case['s'],
                     microsecond=case['us'])
    e = np.array([[[float(exact([int(a), int(b), int(c), case['h'],
                                 case['mi'], case['s'], case['us'], 0]))
                    for c in d]
                   for b in m] for a in y])
    e = np.moveaxis(e, (0, 1, 2), perm)
    ctx.nontrivial(y.size > 1 and m.size > 1)
    ctx.label('more than a day' if case['h'] > 23 or min(case['h'], case['mi'], case['s']) < 0 or case['mi'] > 59
              or case['s'] > 59 or case['us'] > 999999 else 'time of day')
    agree(out, e, 4e-16, 'mjd2000 (broadcast)')


def s_bad(st):
    return st.fixed_dictionaries(dict(
        y=st.integers(-5000, 9999),
        md=st.sampled_from([[13, 1], [0, 1], [2, 30], [4, 31], [1, 0],
                            [1, 32], [2, 29], [12, 99]]),
        arr=st.booleans()))


def c_bad(case, ctx):
    du = harness.chaosmagpy().data_utils
    y, (m, d) = case['y'], case['md']
    if (m, d) == (2, 29) and leap(y):
        y += 1
    ctx.nontrivial()
    if case['arr']:
        y, d = np.array([y - 1, y]), np.array([1, d])
    rejects(f'date {y}-{m}-{d}', du.mjd2000, y, m, d)


NS = Fr(1, 86400*10**9)


def s_stamp(st):
    return st.fixed_dictionaries(dict(
        dates=st.lists(date(st, 1680, 2260), min_size=1, max_size=4),
        raw=st.lists(gen.f(st, -1.17e5, 9.5e4), max_size=3),
        scalar=st.booleans(), dims=st.booleans()))


def c_stamp(case, ctx):
    du = harness.chaosmagpy().data_utils
    D = [[c[0] if 1680 <= c[0] <= 2260 else 1950 + c[0] % 100,
          c[1], min(c[2], 28)] + c[3:] for c in case['dates']]
    t = np.array([float(exact(c)) for c in D] + case['raw'])
    arg = t
    if case['scalar']:
        t = t[:1]
        arg = float(t[0])
    elif case['dims']:
        arg = t[None, :, None]
    out = np.asarray(du.timestamp(arg))
    require(out.dtype == np.dtype('datetime64[ns]'),
            f'dtype {out.dtype} of timestamp')
    require(out.shape == np.shape(arg), f'shape {out.shape} of timestamp')
    got = [int(g) - 10957*86400*10**9 for g in out.ravel().astype('int64')]
    ctx.nontrivial()
    for x, g in zip(t, got):
        e = Fr(float(x)) * 86400*10**9
        tol = 2 + abs(float(e))*4.5e-16
        require(abs(e - g) <= tol,
                f'timestamp({x!r}) is off by {float(e - g)} ns')
    back = du.mjd2000(out)
    agree(back, np.asarray(arg, float), 4e-15, 'mjd2000(timestamp(t))',
          scale=np.maximum(30., np.abs(np.asarray(arg))))


def s_far(st):
    return st.fixed_dictionaries(dict(t=st.one_of(
        gen.f(st, -3e6, -118000.), gen.f(st, 96000., 2.9e6)),
        near=gen.f(st, -1e4, 1e4), arr=st.booleans()))


def c_far(case, ctx):
    # no datetime64[ns] for these: an error but never another date
    du = harness.chaosmagpy().data_utils
    t = case['t']
    ctx.nontrivial()
    rejects(f'timestamp({t})', du.timestamp,
            np.array([case['near'], t]) if case['arr'] else t)


def s_dyear(st):
    return st.fixed_dictionaries(dict(
        t=st.lists(st.one_of(
            st.tuples(st.just('year'), st.integers(-5000, 9999),
                      st.integers(-3, 3)),
            st.tuples(st.just('frac'), gen.f(st, -5000., 9999.),
                      st.just(0)),
            st.tuples(st.just('frac'), gen.f(st, 1990., 2030.),
                      st.just(0)),
            st.tuples(st.just('day'), st.integers(-40000, 40000),
                      st.integers(-2, 2))), min_size=1, max_size=6),
        leap=st.sampled_from([None, True, False]), scalar=st.booleans(),
        aslist=st.booleans()))


def nudge(x, n):
    for _ in range(abs(n)):
        x = float(np.nextafter(x, np.inf if n > 0 else -np.inf))
    return x


def dy_exact(t):
    t = Fr(t)
    y = t.numerator // t.denominator
    return days(y, 1, 1) + (t - y)*(366 if leap(y) else 365)


def mjd_year(x):
    """Year of an exact modified Julian date."""
    y = 2000 + int(float(x)//365.2425)
    while days(y, 1, 1) > x:
        y -= 1
    while days(y + 1, 1, 1) <= x:
        y += 1
    return y


def c_dyear(case, ctx):
    du = harness.chaosmagpy().data_utils
    ts = []
    for kind, x, n in case['t']:
        if kind == 'day':
            y = mjd_year(x)
            x = float(y + Fr(x - days(y, 1, 1), 366 if leap(y) else 365))
        ts.append(nudge(float(x), n))
    if case['scalar']:
        ts = ts[:1]
    kw = {} if case['leap'] is None else dict(leap_year=case['leap'])
    isleap = case['leap'] is not False
    t = np.array(ts)
    arg = float(t[0]) if case['scalar'] else (t.tolist() if case['aslist']
                                              else t)
    ctx.nontrivial(np.any(t != 2000.))
    ctx.label(f'leap_year={case["leap"]}',
              *{('leap year' if leap(int(x)) else 'common year') for x in ts})
    out = du.dyear_to_mjd(arg, **kw)
    e = np.array([float(dy_exact(x) if isleap
                        else (Fr(x) - 2000)*Fr(36525, 100)) for x in ts])
    e = e[0] if case['scalar'] else e
    agree(out, e, 4e-15, 'dyear_to_mjd', scale=np.maximum(400., np.abs(e)))
    back = du.mjd_to_dyear(out if not case['aslist'] or case['scalar']
                           else list(out), **kw)
    agree(back, t[0] if case['scalar'] else t, 4.5e-16,
          'mjd_to_dyear(dyear_to_mjd(t))', scale=1e4)
    # order is kept
    if t.size > 1:
        s = np.sort(t)
        require(np.all(np.diff(du.dyear_to_mjd(s, **kw)) >= 0),
                'dyear_to_mjd is not monotonic')
    # whole years
    if isleap:
        y = np.floor(t)
        e = np.array([days(int(a), 1, 1) for a in y], float)
        agree(du.dyear_to_mjd(y, **kw), e, 0., 'January 1 of a year')
        agree(du.mjd_to_dyear(e, **kw), y, 0., 'year of January 1')


def s_mdy(st):
    return st.fixed_dictionaries(dict(
        t=st.lists(st.one_of(
            st.tuples(gen.f(st, -2.5e6, 2.9e6), st.just(0)),
            st.tuples(gen.f(st, -40000., 20000.), st.just(0)),
            st.tuples(st.integers(1000, 9000).map(lambda y: days(y, 1, 1)),
                      st.integers(-3, 3)),
            st.tuples(st.integers(-36500, 36500), st.integers(-2, 2))),
            min_size=1, max_size=6),
        leap=st.sampled_from([None, True, False]), scalar=st.booleans()))


def c_mdy(case, ctx):
    du = harness.chaosmagpy().data_utils
    t = np.array([nudge(float(x), n) for x, n in case['t']])
    if case['scalar']:
        t = t[:1]
    kw = {} if case['leap'] is None else dict(leap_year=case['leap'])
    e = []
    for x in t:
        x = Fr(float(x))
        if case['leap'] is False:
            e.append(float(2000 + x/Fr(36525, 100)))
        else:
            y = mjd_year(x)
            e.append(float(y + (x - days(y, 1, 1))
                           / (366 if leap(y) else 365)))
    ctx.nontrivial(np.any(t != 0))
    ctx.label('year boundary' if any(n or isinstance(x, int)
                                     for x, n in case['t']) else 'general')
    out = du.mjd_to_dyear(float(t[0]) if case['scalar'] else t, **kw)
    agree(out, e[0] if case['scalar'] else np.array(e), 4e-16,
          'mjd_to_dyear', scale=1e4)
    agree(du.dyear_to_mjd(out, **kw), t[0] if case['scalar'] else t,
          1e-15, 'dyear_to_mjd(mjd_to_dyear(t))', scale=2e6)


def s_leap(st):
    return st.fixed_dictionaries(dict(
        y=st.lists(st.one_of(st.integers(-3000, 12000), st.sampled_from(
            [1900, 2000, 2100, 0, 4, 400, 100])), min_size=1, max_size=5),
        form=st.sampled_from(['int', 'list', 'array', '2d', 'int32', 'int16',
                              'uint16', 'float', 'floats'])))


def c_leap(case, ctx):
    du = harness.chaosmagpy().data_utils
    y, f = case['y'], case['form']
    ctx.nontrivial()
    ctx.label(f)
    if f == 'float':
        return rejects('float year', du.is_leap_year, float(y[0]),
                       exc=TypeError)
    if f == 'floats':
        return rejects('float years', du.is_leap_year,
                       np.array(y, float) + .5, exc=TypeError)
    if f == 'uint16':
        y = [abs(a) for a in y]
    arg = y[0] if f == 'int' else np.array(y)
    if f == 'list':
        arg = y
    if f == '2d':
        arg = np.array(y)[:, None]
    if 'int' in f and f != 'int':
        arg = np.array(y, dtype=f)
    out = np.asarray(du.is_leap_year(arg))
    e = np.array([leap(a) for a in y]).reshape(np.shape(arg)
                                               if f != 'int' else (-1,))
    e = e[0] if f == 'int' else e
    require(out.dtype == bool and out.shape == np.shape(e), 'shape or type')
    require(np.array_equal(out, e), f'is_leap_year({arg!r}) is {out!r}')


def _large(name, lo, hi, **kw):
    def make(cp, salt, n):
        return (lambda t: getattr(cp.data_utils, name)(t, **kw),
                (gen.spread(salt, (n,), lo, hi),), 1e6)
    return make


def _large_mjd(cp, salt, n):
    def ints(k, lo, hi):
        return np.floor(gen.spread(salt + k, (n,), lo, hi)).astype(int)
    return cp.data_utils.mjd2000, (
        ints(0, 1, 9999), ints(1, 1, 13), ints(2, 1, 29), ints(3, 0, 24),
        ints(4, 0, 60)), 1e6


def _large_leap(cp, salt, n):
    return cp.data_utils.is_leap_year, (
        np.floor(gen.spread(salt, (n,), 1, 9999)).astype(int),), 1.


LARGE = dict(stamp=_large('timestamp', -1e5, 9e4),
             mjd=_large('dyear_to_mjd', 1., 9999.),
             mjd_365=_large('dyear_to_mjd', 1., 9999., leap_year=False),
             dyear=_large('mjd_to_dyear', -7e5, 1e6), date=_large_mjd,
             leap=_large_leap)


FACETS = [
    Facet('mjd', s_mjd, c_mjd, 2500),
    Facet('bc', s_bc, c_bc, 500),
    Facet('bad', s_bad, c_bad, 150),
    Facet('stamp', s_stamp, c_stamp, 1500),
    Facet('far', s_far, c_far, 100),
    Facet('dyear', s_dyear, c_dyear, 2000),
    Facet('mdy', s_mdy, c_mdy, 2000),
    Facet('leap', s_leap, c_leap, 600),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C13', 160),
]
assert days(2000, 1, 1) == 0 and days(2000, 3, 1) == 60
assert days(1970, 1, 1) == -10957 and calendar.isleap(2000)
