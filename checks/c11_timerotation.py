import os
import numpy as np
import harness
from harness import Facet, agree, as_array, fill, rejects, require
import gen
import history
import large
import ref

PROPERTY = 'C11'
SCALE = 4         # times the cases of each facet in quick runs
RULE = ('Frequencies, spectra and times for the synthesis; sampling, length, '
        'degrees, reference system, response functions, scaling and filter '
        'length for the analysis. Non-trivial: more than one frequency.')
ASSUMPTIONS = ['Exact reconstruction is required for an odd number of '
               'samples: with an even number the convention doubles the '
               'Nyquist term as well.',
               'rotate_gauss and the base vectors are decided by C08/C09.']


def s_synth(st):
    return st.fixed_dictionaries(dict(
        k=st.integers(1, 6), m=st.integers(1, 4), n=st.integers(1, 4),
        dims=gen.dims(st, 2, 3), salt=gen.salt(st),
        vector=st.booleans(), bias=st.booleans(),
        scaled=st.sampled_from([None, False, True]),
        size=st.sampled_from([0, 0, 0, -3, -6, -10, 6]),
        speed=st.sampled_from([0, 0, 0, -2, -3, -4, -6, -9, 1]),
        fall=st.sampled_from([0., 0., 0., 1., 3., -3., 5.])))


def c_synth(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    k, m, n, s = case['k'], case['m'], case['n'], case['salt']
    shape = (k,) if case['vector'] else (k, m, n)
    freq = gen.spread(s, shape, 0., 5.)*10.**case.get('speed', 0)
    if case['bias']:
        freq[s % k] = 0.
    spec = fill(s + 1, k, m, n) + 1j*fill(s + 2, k, m, n)
    # small or large terms in all, or more so with every row and frequency
    spec *= 10.**(case.get('size', 0) - case.get('fall', 0.)*(
        np.arange(m)[:, None] + (np.arange(k) if s % 2 else np.zeros(k))[
            :, None, None]))
    time = gen.spread(s + 3, tuple(case['dims']), -500., 500.)
    kw = {} if case['scaled'] is None else dict(scaled=case['scaled'])
    out = cu.synth_rotate_gauss(time, freq, spec, **kw)
    ctx.nontrivial(k > 1)
    ctx.label('vector' if case['vector'] else '3-D',
              f'scaled={case["scaled"]}', 'bias' if case['bias'] else
              'no bias', 'k==m==n' if k == m == n else 'k,m,n differ')
    exp = np.zeros(time.shape + (m, n))
    for i in np.ndindex(*time.shape):
        for a in range(k):
            for b in range(m):
                for c in range(n):
                    f = freq[a] if case['vector'] else freq[a, b, c]
                    ph = 2*np.pi*f*time[i]
                    v = (spec[a, b, c].real*np.cos(ph)
                         - spec[a, b, c].imag*np.sin(ph))
                    if f > 0 and not case['scaled']:
                        v *= 2
                    exp[i + (b, c)] += v
    agree(out, exp, 1e-9, 'synth_rotate_gauss',
          scale=4*np.broadcast_to(np.sum(np.abs(spec), axis=0), exp.shape))


def s_fft(st):
    return st.fixed_dictionaries(dict(
        nmax=st.integers(1, 2), kmax=st.integers(1, 2),
        N=st.one_of(st.integers(4, 14), st.integers(2, 7).map(lambda i: 2*i+1)), step=st.sampled_from([None, 1., .5, 2., 3., 7., 24.,
                                                        1000., 1e-2]),
        ref=st.sampled_from([None, 'gsm', 'sm', 'GSM', 'SM']),
        start=st.sampled_from([None, 0., 1000.25, -3000.]),
        scaled=st.sampled_from([None, False, True]),
        filt=st.one_of(st.none(), st.integers(1, 4)),
        q=st.sampled_from(['none', 'func', 'func', 'zero', 'one']),
        dipole=st.sampled_from([None, [-3e4, -4e3, 6e3]]),
        save=st.booleans(), salt=gen.salt(st)))


def c_fft(case, ctx):
    cp = harness.chaosmagpy()
    cu = cp.coordinate_utils
    nmax, kmax, N = case['nmax'], case['kmax'], case['N']
    step = case['step'] or 1.
    if case['dipole']:
        cp.basicConfig['params.dipole'] = np.array(case['dipole'])
    kw = dict(N=N) if case['step'] is None else dict(step=step, N=N)
    case['filt'] = case['filt'] and min(case['filt'], N//2 + 1)
    for key, name in (('reference', 'ref'), ('start_date', 'start'),
                      ('scaled', 'scaled'), ('filter', 'filt')):
        if case[name] is not None:
            kw[key] = case[name]
    s = case['salt']

    def qfunc(freq, k):
        f = np.asarray(freq)*86400.
        if case['q'] == 'zero':
            return np.zeros(f.shape)
        if case['q'] == 'one':
            return np.ones(f.shape)
        return ((1. + k) / (1. + f) + 1j*(.1 + k)*f) * (1 + s % 3)

    if case['q'] != 'none':
        kw['qfunc'] = qfunc
    with harness.scratch() as d:
        if case['save']:
            kw['save_to'] = os.path.join(d, 'spec.npz')
            harness.used(kw['save_to'], s)
        out = cu.rotate_gauss_fft(nmax, kmax, **kw)
        if case['save']:
            with np.load(kw['save_to']) as npz:
                saved = {k: npz[k] for k in npz.files}
            for key, v in zip(('frequency', 'spectrum', 'frequency_ind',
                               'spectrum_ind'), out):
                agree(saved[key], np.asarray(v), 0., f'saved {key}')
            agree(saved['dipole'], cp.basicConfig['params.dipole'], 0.,
                  'saved dipole')
            for key, v in (('step', step), ('N', N), ('scaled',
                           bool(case['scaled'])), ('start_date',
                           case['start'] or 0.)):
                require(saved[key] == v, f'saved {key}')
    nn, kk = nmax*(nmax + 2), kmax*(kmax + 2)
    nf = case['filt'] or N//2 + 1
    freq, spec, freq_i, spec_i = (
        as_array(v, 'rotate_gauss_fft', (nf, nn, kk), t)
        for v, t in zip(out, (float, complex, float, complex)))
    rf = (case['ref'] or 'gsm').lower()
    time = np.arange(N)*step/24. + (case['start'] or 0.)
    base = cu.basevectors_gsm(time) if rf == 'gsm' else \
        cu.basevectors_sm(time)
    M = cu.rotate_gauss(nmax, kmax, *base)
    # definition of the discrete Fourier transform
    j = np.arange(N)
    X = [np.tensordot(np.exp(-2j*np.pi*h*j/N), M, 1)/N
         for h in range(N//2 + 1)]
    X = np.array(X)
    fr = np.arange(N//2 + 1)/(N*step/24.)     # oscillations per day
    ctx.nontrivial(nf > 1)
    ctx.label(rf, f'q={case["q"]}', f'scaled={case["scaled"]}',
              'filtered' if nf < N//2 + 1 else 'all', 'odd' if N % 2 else
              'even')
    if case['q'] == 'none':
        dat = np.loadtxt(cp.basicConfig['file.Earth_conductivity'])
        q = np.zeros((nmax, fr.size), complex)
        for i, f in enumerate(fr):
            if f > 0:
                for n in range(1, nmax + 1):
                    q[n-1, i] = ref.response_quadratic(
                        86400./f, dat[:, 1], 6371.2 - dat[:, 0], n)[1]
    for k in range(nn):
        if case['q'] == 'none':
            n = [x[0] for x in ref.index_list(1, nmax)][k]
            resp = q[n-1]
        else:
            resp = qfunc(fr/86400., k)
        for kind, F, S, Y in (('', freq, spec, X[:, k]),
                              ('_ind', freq_i, spec_i,
                               resp[:, None]*X[:, k])):
            for c in range(kk):
                idx = np.round(F[:, k, c]*N*step/24.).astype(int)
                require(np.all((idx >= 0) & (idx <= N//2))
                        and len(set(idx)) == nf,
                        f'frequency{kind}: not distinct DFT frequencies')
                agree(F[:, k, c], fr[idx], 1e-12, f'frequency{kind}')
                fac = np.where(idx > 0, 2., 1.) if case['scaled'] else 1.
                sc = 1 + np.max(np.abs(Y[:, c]))
                agree(S[:, k, c], fac*Y[idx, c], 1e-8, f'spectrum{kind}',
                      scale=sc)
                # the significant terms are kept
                rest = np.delete(np.abs(Y[:, c]), idx)
                if rest.size:
                    require(rest.max() <= np.abs(Y[idx, c]).min()
                            + 1e-9*sc, f'spectrum{kind}: larger term left '
                            'out')
    if N % 2 and nf == N//2 + 1:
        ctx.label('reconstructed')
        back = cu.synth_rotate_gauss(
            time - (case['start'] or 0.), freq, spec,
            scaled=bool(case['scaled']))
        agree(back, M, 1e-9, 'reconstruction of the matrices')


def s_defaults(st):
    return st.fixed_dictionaries(dict(
        ref=st.sampled_from([None, 'gsm', 'sm']),
        start=st.sampled_from([None, 0., -1234.5]),
        step=st.sampled_from([None, None, 1., .5]),
        filt=st.integers(1, 6), scaled=st.booleans(), salt=gen.salt(st)))


def c_defaults(case, ctx):
    # the documented default: eight years of hourly samples
    cp = harness.chaosmagpy()
    cu = cp.coordinate_utils
    nf = case['filt']
    kw = {key: case[name] for key, name in (
        ('reference', 'ref'), ('start_date', 'start'), ('step', 'step'))
        if case[name] is not None}
    out = cu.rotate_gauss_fft(1, 1, filter=nf, scaled=case['scaled'],
                              qfunc=lambda freq, k: np.ones(freq.shape), **kw)
    N = 70128
    step = case['step'] or 1.
    time = np.arange(N)*step/24. + (case['start'] or 0.)
    base = (cu.basevectors_sm if case['ref'] == 'sm' else
            cu.basevectors_gsm)(time)
    # degree one: the coefficients rotate as the vectors (z, x, y)
    M = np.stack([b[:, [2, 0, 1]] for b in base], axis=-1)[..., [2, 0, 1]]
    ctx.nontrivial()
    ctx.label(case['ref'], f'step={case["step"]}')
    X = np.fft.rfft(M, axis=0)/N
    for F, S in ((out[0], out[1]), (out[2], out[3])):
        F = as_array(F, 'frequency', (nf, 3, 3), float)
        S = as_array(S, 'spectrum', (nf, 3, 3), complex)
        idx = np.round(F*N*step/24.).astype(int)
        require(np.all((idx >= 0) & (idx <= N//2)),
                'not frequencies of the default samples')
        agree(F, idx/(N*step/24.), 1e-12, 'frequency by default')
        fac = np.where(idx > 0, 2., 1.) if case['scaled'] else 1.
        r, c = np.ogrid[:3, :3]
        agree(S, fac*X[idx, r, c], 1e-9, 'spectrum by default')
        for i in range(3):
            for j in range(3):
                y = np.sort(np.abs(X[:, i, j]))[::-1][:nf]
                agree(np.sort(np.abs(X[idx[:, i, j], i, j]))[::-1], y, 1e-9,
                      'largest terms by default')


def s_bad(st):
    return st.fixed_dictionaries(dict(word=st.sampled_from(
        ['geo', 'mag', '', 'gse', 'gsmm'])))


def c_bad(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    ctx.nontrivial()
    rejects('rotate_gauss_fft reference', cu.rotate_gauss_fft, 1, 1, N=4,
            reference=case['word'], exc=ValueError)



def _large_synth(scaled):
    def make(cp, salt, n):
        f = 4.*np.abs(fill(salt, 5, 2, 3))
        x = fill(salt + 1, 5, 2, 3) + 1j*fill(salt + 2, 5, 2, 3)
        return (lambda t: cp.coordinate_utils.synth_rotate_gauss(
            t, f, x, scaled=scaled), (gen.spread(salt, (n,), -9e3, 9e3),), 1e4)
    return make


LARGE = {f'scaled={x}': _large_synth(x) for x in (False, True)}


FACETS = [
    Facet('synth', s_synth, c_synth, 1200),
    Facet('fft', s_fft, c_fft, 400),
    Facet('defaults', s_defaults, c_defaults, 2),
    Facet('bad', s_bad, c_bad, 20),
    large.facet(LARGE),
    large.layout(LARGE),
    large.alike(LARGE),
    history.facet('C11', 120),
]
