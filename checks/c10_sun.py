import numpy as np
import harness
from harness import Facet, agree, as_array, rejects, require
import gen
import history
import large
import ref

PROPERTY = 'C10'
SCALE = 5         # times the cases of each facet in quick runs
RULE = ('Times from 1901 to 2099 (also just inside and outside of the '
        'bounds) and positions, among them the subsolar point and its '
        'antipode. Non-trivial: more than one day away from 2000.')
ASSUMPTIONS = ['The one under test is documented to 0.006 degrees; the '
               'reference ephemeris neglects the perturbations as well: '
               '0.007 degrees are allowed.']

LO, HI = -36159. + 1., 36159. - 1.     # 1901-01-02 to 2098-12-30


def s_sun(st):
    t = st.one_of(gen.f(st, LO, HI), gen.f(st, -3000., 12000.),
                  gen.f(st, 0., 366.), st.sampled_from(
                      [0., .5, 1., -1., -.25, 365., 366., 36158.5, -36158.5]),
                  st.integers(-36158, 36158).map(float))
    return st.fixed_dictionaries(dict(
        time=st.lists(t, min_size=1, max_size=5),
        kind=st.sampled_from(['float', '1d', '2d'])))


def times(case):
    t = np.array(case['time'])
    if case['kind'] == 'float':
        return float(t[0])
    if case['kind'] == '2d':
        return t[:, None] + np.zeros(2)
    return t


def c_sun(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    t = times(case)
    th, ph = cu.sun_position(t)
    th = as_array(th, 'colatitude of the sun', np.shape(t))
    ph = as_array(ph, 'longitude of the sun', np.shape(t))
    ctx.nontrivial(np.any(np.abs(t) > 1))
    ctx.label(case['kind'], 'before 2000' if np.any(np.asarray(t) < 0)
              else 'after 2000')
    require(np.all((th > 66.) & (th < 114.)), 'colatitude of the sun')
    require(np.all((ph > -180) & (ph <= 180)), 'longitude of the sun')
    a, b = ref.unit(th, ph)[0], ref.unit(*ref.sun_direction(t))[0]
    ang = np.degrees(np.arccos(np.clip(np.sum(a*b, -1), -1, 1)))
    agree(ang, np.zeros(ang.shape), 0.007, 'sun position off by (degrees)')


def s_bounds(st):
    return st.fixed_dictionaries(dict(
        bad=st.one_of(gen.f(st, 36525. + 10, 2e5), gen.f(
            st, -3e5, -36525. - 10)),
        good=st.lists(gen.f(st, LO, HI), max_size=3),
        at=st.integers(0, 3)))


def c_bounds(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    t = list(case['good'])
    t.insert(min(case['at'], len(t)), case['bad'])
    ctx.nontrivial(len(t) > 1)
    ctx.label('too early' if case['bad'] < 0 else 'too late')
    t = np.array(t)
    rejects('sun_position out of bounds', cu.sun_position, t)
    rejects('zenith_angle out of bounds', cu.zenith_angle, t, 40., 20.)
    rejects('basevectors_gsm out of bounds', cu.basevectors_gsm, t)
    rejects('basevectors_sm out of bounds', cu.basevectors_sm, t)


def s_zenith(st):
    return st.fixed_dictionaries(dict(
        time=st.lists(gen.f(st, LO, HI), min_size=1, max_size=4),
        theta=gen.theta(st), phi=gen.phi(st),
        where=st.sampled_from(['any', 'any', 'subsolar', 'antipode',
                               'near']),
        eps=gen.f(st, 0., 1e-5), kind=st.sampled_from(['float', '1d', '2d'])))


def c_zenith(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    t = times(case)
    ts, ps = (as_array(x, 'sun') for x in cu.sun_position(t))
    th, ph = case['theta'], case['phi']
    if case['where'] == 'subsolar':
        th, ph = ts, ps
    elif case['where'] == 'antipode':
        th, ph = 180. - ts, ps + 180.
    elif case['where'] == 'near':
        th, ph = ts + case['eps'], ps
    elif case['kind'] == '2d':
        th = th + np.zeros(2)
    out = as_array(cu.zenith_angle(t, th, ph), 'zenith_angle', np.shape(t))
    ctx.nontrivial()
    ctx.label(case['where'], case['kind'])
    require(np.all((out >= 0) & (out <= 180)),
            f'zenith angle outside [0, 180]: {out}')
    a, b = ref.unit(ts, ps)[0], ref.unit(th, ph)[0]
    cr = np.cross(a, b)
    ang = np.degrees(np.arctan2(np.sqrt(np.sum(cr*cr, -1)),
                                np.sum(a*b, -1)))
    agree(out, ang, 3e-6, 'zenith angle')


def _large_sun(cp, salt, n):
    return (cp.coordinate_utils.sun_position,
            (gen.spread(salt, (n,), -3e4, 3e4),), 100.)


def _large_zenith(cp, salt, n):
    return (cp.coordinate_utils.zenith_angle,
            (gen.spread(salt, (n,), -3e4, 3e4),
             gen.spread(salt + 1, (n,), 0., 180.),
             gen.spread(salt + 2, (n,), -180., 180.)), 1e6)


LARGE = dict(sun=_large_sun, zenith=_large_zenith)


FACETS = [
    Facet('sun', s_sun, c_sun, 2000),
    Facet('bounds', s_bounds, c_bounds, 240),
    Facet('zenith', s_zenith, c_zenith, 1600),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C10', 96),
]
