"""Facet for large arrays: an element of the result for a large array is the
result for that element alone (together with a few others)."""
import numpy as np
import harness
from harness import Facet, agree, as_array, require
import gen

SIZES = [1031, 4099, 20011, 70001]


def facet(functions, count=48, sizes=SIZES, tol=1e-12):
    """functions: name -> f(cp, salt, n), which returns the function under
    test, its arguments with n elements along the first axis, and the size of
    the results."""
    def strategy(st):
        return st.fixed_dictionaries(dict(
            fn=st.sampled_from(sorted(functions)), salt=gen.salt(st),
            n=st.sampled_from(sizes), plus=st.integers(0, 40),
            at=st.lists(st.integers(0, 10**6), min_size=3, max_size=12)))

    def check(case, ctx):
        cp = harness.chaosmagpy()
        n = case['n'] + case['plus']
        fn, args, size = functions[case['fn']](cp, case['salt'], n)
        at = np.array([0, n - 1, n//2] + [i % n for i in case['at']])
        ctx.nontrivial()
        ctx.label(case['fn'])
        whole, part = fn(*args), fn(*[a[at] for a in args])
        if not isinstance(whole, tuple):
            whole, part = (whole,), (part,)
        require(len(whole) == len(part), 'number of results')
        for k, (a, b) in enumerate(zip(whole, part)):
            a, b = (np.asarray(x) for x in (a, b))
            if a.dtype.kind in 'mMb':
                a, b = a.astype(np.int64), b.astype(np.int64)
            kind = complex if np.iscomplexobj(b) else float
            b = as_array(b, case['fn'], dtype=kind)
            require(b.shape[0] == at.size, f'{case["fn"]}: shape {b.shape}')
            a = as_array(a, case['fn'], (n,) + b.shape[1:], dtype=kind)
            agree(a[at], b, tol, f'{case["fn"]}: result {k} for {n} elements',
                  scale=size, equal_nan=True)
            require(np.all(np.isfinite(a)), f'{case["fn"]}: not finite')

    return Facet('large', strategy, check, count, 10*count)


def relayout(a, kind):
    """The same numbers in another order of the memory."""
    a = np.asarray(a)
    if a.ndim == 0 or kind == 'plain':
        return a
    if kind == 'fortran':
        return np.asfortranarray(a)
    if kind == 'backwards':
        return np.ascontiguousarray(a[(slice(None, None, -1),)*a.ndim])[
            (slice(None, None, -1),)*a.ndim]
    if kind == 'swapped':          # the other byte order
        return a.astype(a.dtype.newbyteorder('S'))
    if kind == 'offset':           # not aligned
        raw = np.zeros(a.nbytes + 1, np.uint8)[1:]
        out = raw.view(a.dtype).reshape(a.shape)
        out[...] = a
        return out
    big = np.full(tuple(2*s + 1 for s in a.shape), a.ravel()[0] if a.size
                  else 0, a.dtype)
    out = big[(slice(1, None, 2),)*a.ndim]
    out[...] = a
    return out


KINDS = ['plain', 'fortran', 'backwards', 'strided', 'swapped', 'offset']


def layout(functions, flat=(), count=300, tol=1e-12, native=()):
    """Facet: the shape of the arrays and their order in the memory do not
    matter. Takes the functions of facet(); the ones in flat want arrays of
    one dimension, the ones in native (SciPy) aligned numbers in
    the byte order of the machine."""
    def strategy(st):
        return st.fixed_dictionaries(dict(
            fn=st.sampled_from(sorted(functions)), salt=gen.salt(st),
            shape=st.lists(st.integers(1, 4), min_size=1, max_size=4),
            kinds=st.lists(st.sampled_from(KINDS), min_size=1, max_size=5)))

    def check(case, ctx):
        cp = harness.chaosmagpy()
        name = case['fn']
        shape = tuple(case['shape'])
        n = int(np.prod(shape))
        if name in flat:
            shape = (n,)
        fn, args, size = functions[name](cp, case['salt'], n)
        ctx.nontrivial(n > 1)
        ctx.label(name, *case['kinds'], f'{len(shape)} dimensions')
        kinds = ['plain' if name in native and k in ('swapped', 'offset')
                 else k
                 for k in case['kinds']]
        other = [relayout(a.reshape(shape + a.shape[1:]),
                          kinds[i % len(kinds)]) for i, a in enumerate(args)]
        base, out = fn(*args), fn(*other)
        if not isinstance(base, tuple):
            base, out = (base,), (out,)
        require(len(base) == len(out), 'number of results')
        for k, (a, b) in enumerate(zip(out, base)):
            a, b = np.asarray(a), np.asarray(b)
            if b.dtype.kind in 'mMb':
                require(a.dtype == b.dtype, f'{name}: dtype {a.dtype}')
                a, b = a.astype(np.int64), b.astype(np.int64)
            kind = complex if np.iscomplexobj(b) else float
            require(b.shape[:1] == (n,), f'{name}: shape {b.shape}')
            b = as_array(b, name, dtype=kind).reshape(shape + b.shape[1:])
            a = as_array(a, name, b.shape, dtype=kind)
            agree(a, b, tol, f'{name}: result {k} for arrays {case["kinds"]} '
                  f'of shape {shape}', scale=size, equal_nan=True)

    return Facet('layout', strategy, check, count)


def pattern(a, kind, salt):
    """Elements that have something in common."""
    n = len(a)
    if kind == 'plain' or n == 1:
        return a
    if kind == 'equal':
        return np.repeat(a[:1], n, axis=0)
    if kind == 'pairs':                  # 0 1 0 1 ...
        return a[np.arange(n) % 2]
    if kind == 'runs':                   # 0 0 1 1 2 2 ...
        return a[np.arange(n)//2]
    if kind == 'ends':                   # first and last alike
        return np.concatenate((a[:-1], a[:1]))
    if kind == 'but one':
        a = np.concatenate((np.repeat(a[:1], n - 1, axis=0), a[1:2]))
        return np.roll(a, salt % n, axis=0)
    if kind in ('sorted', 'reversed'):
        order = np.argsort(a.reshape(n, -1)[:, 0], kind='stable')
        return a[order if kind == 'sorted' else order[::-1]]
    if a.dtype.kind != 'f':
        return a
    w = {'close': 1e-8, 'near': 1e-5}[kind]*np.abs(gen.spread(
        salt + 3, (n,), 0., 1.))
    w[salt % n] = 0.
    return a[:1] + w.reshape((n,) + (1,)*(a.ndim - 1))*(a[1:2] - a[:1])


PATTERNS = ['plain', 'equal', 'pairs', 'runs', 'ends', 'but one', 'sorted',
            'reversed', 'close', 'near']


def alike(functions, count=240, tol=1e-12, most=8):
    """Facet: the result of an element does not depend on the other elements,
    also if some of them are equal, nearly equal or in order. Takes the
    functions of facet()."""
    def strategy(st):
        return st.fixed_dictionaries(dict(
            fn=st.sampled_from(sorted(functions)), salt=gen.salt(st),
            n=st.integers(2, most),
            kinds=st.lists(st.sampled_from(PATTERNS), min_size=1,
                           max_size=4)))

    def check(case, ctx):
        cp = harness.chaosmagpy()
        name, n = case['fn'], case['n']
        fn, args, size = functions[name](cp, case['salt'], n)
        kinds = case['kinds']
        ctx.nontrivial(set(kinds) != {'plain'})
        ctx.label(name, *kinds)
        args = [pattern(np.asarray(a), kinds[i % len(kinds)],
                        case['salt'] + i) for i, a in enumerate(args)]
        whole = fn(*args)
        single = [fn(*[a[i:i + 1] for a in args]) for i in range(n)]
        if not isinstance(whole, tuple):
            whole, single = (whole,), [(s,) for s in single]
        for k, a in enumerate(whole):
            a = np.asarray(a)
            b = [np.asarray(s[k]) for s in single]
            if a.dtype.kind in 'mMb':
                a, b = a.astype(np.int64), [x.astype(np.int64) for x in b]
            require(all(x.shape[:1] == (1,) for x in b),
                    f'{name}: shape {b[0].shape} for one element')
            b = np.concatenate(b)
            kind = complex if np.iscomplexobj(b) else float
            a = as_array(a, name, b.shape, dtype=kind)
            agree(a, as_array(b, name, dtype=kind), tol, f'{name}: result {k} '
                  f'of {n} elements ({", ".join(kinds)}) and one by one',
                  scale=size, equal_nan=True)

    return Facet('alike', strategy, check, count)
