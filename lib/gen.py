"""Strategies for plain JSON-able data, and their decoding to arrays."""
import numpy as np
from harness import fill

R = 6371.2


def f(st, lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False, **kw)


def salt(st):
    return st.integers(0, 2**31 - 1)


SPECIAL_THETA = [0., 180., 90., 45., 135., 1e-12, 1e-9, 1e-7, 1e-5, 1e-3,
                 180. - 1e-9, 180. - 1e-7, 180. - 1e-4, 0.5, 179.5, 1., 60.]
SPECIAL_PHI = [0., 180., -180., 360., 90., -90., 45., 359.999, 720., -300.,
               270., 1e-9]


def theta(st, poles=True):
    sp = SPECIAL_THETA if poles else SPECIAL_THETA[2:5] + [.5, 179.5, 1., 60.]
    lo, hi = (0., 180.) if poles else (1e-2, 180. - 1e-2)
    return st.one_of(f(st, lo, hi), f(st, lo, hi), st.sampled_from(sp))


def phi(st):
    return st.one_of(f(st, -180., 180.), f(st, 0., 360.), f(st, -720., 720.),
                     st.sampled_from(SPECIAL_PHI))


def radius(st, lo=0.55, hi=3.):
    near = st.tuples(st.sampled_from([1., -1.]), st.integers(3, 12)).map(
        lambda x: R*(1. + x[0]*10.**-x[1]))
    return st.one_of(f(st, lo*R, hi*R), f(st, .9*R, 1.2*R), near,
                     st.sampled_from([R, 6371.0, 3485., 6371.2 + 400, 7000.,
                                      2*R]))


def coeff_spec(st):
    """How a coefficient vector is made: see coeffs()."""
    return st.one_of(
        st.fixed_dictionaries(dict(kind=st.just('dense'), salt=salt(st),
                                   amp=st.sampled_from([1., 1e-3, 3e4, 1e-9,
                                                        1e7]))),
        st.fixed_dictionaries(dict(kind=st.just('dense'), salt=salt(st),
                                   amp=st.just(1.))),
        st.fixed_dictionaries(dict(kind=st.just('unit'), salt=salt(st))),
        st.fixed_dictionaries(dict(kind=st.just('sparse'), salt=salt(st))))


def coeffs(spec, *shape):
    """Decode a coefficient specification to an array of the given shape."""
    n = shape[-1]
    if spec['kind'] == 'dense':
        return spec['amp'] * fill(spec['salt'], *shape)
    out = np.zeros(shape)
    if n == 0:
        return out
    if spec['kind'] == 'unit':
        out[..., spec['salt'] % n] = 1.
        return out
    full = fill(spec['salt'], *shape)
    mask = fill(spec['salt'] + 1, *shape) > 0.4
    return np.where(mask, full, 0.)


LARGE = [[1031], [4099], [3, 700], [67, 65]]


def dims(st, max_dims=2, max_side=4):
    """Shape of an array: mostly small, at times large."""
    small = st.lists(st.integers(1, max_side), max_size=max_dims)
    return st.integers(0, 39).flatmap(
        lambda i: st.sampled_from(LARGE) if i == 39 else small)


def broadcast_shapes(st, nargs, max_dims=3, max_side=4):
    """nargs shapes which broadcast, as lists of ints."""
    @st.composite
    def make(draw):
        nd = draw(st.integers(0, max_dims))
        full = [draw(st.integers(1, max_side)) for _ in range(nd)]
        if draw(st.integers(0, 39)) == 39:
            full = draw(st.sampled_from(LARGE))
            nd = len(full)
        shapes = []
        for _ in range(nargs):
            drop = draw(st.integers(0, nd))
            sh = full[drop:]
            shapes.append([1 if draw(st.integers(0, 3)) == 0 else s
                           for s in sh])
        return shapes
    return make()


def spread(salt_, shape, lo, hi):
    """Values in (lo, hi), made from a salt."""
    return lo + (hi - lo) * (fill(salt_, *shape) + 1.) / 2.


def as_kind(values, kind):
    """Hand the same numbers over as float, list or array."""
    arr = np.asarray(values, dtype=float)
    if kind == 'list':
        return arr.tolist()
    if kind == 'float' and arr.ndim == 0:
        return float(arr)
    return arr


def size(st, hi, big, lo=1, often=30):
    """A number of things: mostly small, at times (1 in 30) large."""
    return st.integers(0, often - 1).flatmap(
        lambda i: st.integers(hi + 1, big) if i == often - 1
        else st.integers(lo, hi))


def steep(st):
    """Powers of ten per degree by which coefficients fall or rise."""
    return st.sampled_from([0., 0., 0., 0., 1., -1., 2.5, 4., -3.])


def slope(x, nmax):
    """Factors of the coefficients: at most 24 powers of ten."""
    n = np.repeat(np.arange(nmax), 2*np.arange(1, nmax + 1) + 1)
    if abs(x)*nmax > 24:
        x = np.sign(x)*24./nmax
    return 10.**(-x*n)
