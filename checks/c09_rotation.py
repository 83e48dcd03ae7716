import numpy as np
import harness
from harness import Facet, agree, as_array, fill, require
import gen
import history
import ref
from c08_frames import rotation

PROPERTY = 'C09'
SCALE = 7         # times the cases of each facet in quick runs
RULE = ('Random proper rotations (single or a series), degrees and '
        'coefficients; functions built from known harmonics. Non-trivial: the '
        'rotation is not about the geographic axis, or more than one degree.')
ASSUMPTIONS = ['Degrees up to 5 (rotation) and 12 (analysis).']


def s_rot(st):
    return st.fixed_dictionaries(dict(
        nmax=gen.size(st, 5, 20), kmax=gen.size(st, 5, 20), rot=gen.salt(st),
        dims=st.sampled_from([[], [], [1], [2], [3], [2, 2]]), salt=gen.salt(st),
        special=st.sampled_from([None, None, None, 'identity', 'axis',
                                 'flip', 'series', 'same', 'tiny']),
        small=st.sampled_from([1e-3, 1e-6, 1e-7, 1e-8, 3e-9]),
        theta=gen.theta(st), phi=gen.phi(st), radius=gen.radius(st)))


def matrices(case):
    n = int(np.prod(case['dims'], dtype=int))
    E = np.stack([rotation(case['rot'] + i) for i in range(n)])
    if case['special'] == 'identity':
        E[0] = np.eye(3)
    elif case['special'] == 'axis':
        a = np.radians(case['phi'])
        E[0] = [[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0],
                [0, 0, 1]]
    elif case['special'] == 'tiny':     # nearly no rotation
        for k in range(n):
            w = case['small']*(k + 1)*fill(case['rot'] + k, 3)
            W = np.array([[0., -w[2], w[1]], [w[2], 0., -w[0]],
                          [-w[1], w[0], 0.]])
            E[k] = np.linalg.solve(np.eye(3) + W/2, np.eye(3) - W/2)
    elif case['special'] == 'flip':
        E[0] = np.diag([1., -1., -1.])
    elif case['special'] == 'series':   # one common base vector
        i = case['salt'] % 3
        for k in range(n):
            a = np.radians(case['phi'] + 17.*k)
            R = np.zeros((3, 3))
            R[i, i] = 1.
            R[(i + 1) % 3, [(i + 1) % 3, (i + 2) % 3]] = np.cos(a), np.sin(a)
            R[(i + 2) % 3, [(i + 1) % 3, (i + 2) % 3]] = -np.sin(a), np.cos(a)
            E[k] = R @ E[0] if k else E[0]
    elif case['special'] == 'same':
        E[:] = E[0]
    return E.reshape(tuple(case['dims']) + (3, 3))


def c_rot(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    nmax, kmax = case['nmax'], case['kmax']
    E = matrices(case)
    M = cu.rotate_gauss(nmax, kmax, E[..., 0, :], E[..., 1, :], E[..., 2, :])
    nn, kk = nmax*(nmax + 2), kmax*(kmax + 2)
    M = as_array(M, 'rotate_gauss', tuple(case['dims']) + (nn, kk))
    ctx.nontrivial(case['special'] not in ('identity', 'axis'))
    ctx.label(case['special'], f'dims={len(case["dims"])}',
              'nmax<kmax' if nmax < kmax else 'nmax>=kmax')
    # degrees do not mix; each block is orthogonal
    dn = np.array([x[0] for x in ref.index_list(1, nmax)])
    dk = np.array([x[0] for x in ref.index_list(1, kmax)])
    mix = dn[:, None] != dk[None, :]
    agree(M[..., mix], np.zeros(M[..., mix].shape), 1e-10, 'degrees mix')
    for n in range(1, min(nmax, kmax) + 1):
        B = M[..., dn == n, :][..., dk == n]
        agree(B @ np.swapaxes(B, -1, -2), np.broadcast_to(
            np.eye(2*n + 1), B.shape), 1e-10, f'degree {n} orthogonal')
    # the dipole is a vector: g11, h11, g10 along x, y, z
    d = [2, 0, 1]
    agree(M[..., :3, :3], np.swapaxes(E, -1, -2)[..., d, :][..., d],
          1e-12, 'rotation of the dipole')
    # one and the same vector field in both systems
    lo = min(nmax, kmax)
    c = fill(case['salt'], kk)
    c[dk > lo] = 0.
    r, t, p = case['radius'], case['theta'], case['phi']
    up, so, ea = ref.unit(t, p)
    for idx in np.ndindex(*case['dims']):
        R = E[idx]
        w = R @ up
        t2 = np.degrees(np.arctan2(np.hypot(w[0], w[1]), w[2]))
        p2 = np.degrees(np.arctan2(w[1], w[0]))
        for src in ('external', 'internal'):
            A = ref.field_matrix(r, t2, p2, 1, kmax, None, src)
            u2, s2, e2 = ref.unit(t2, p2)
            b = [a @ c for a in A]
            vec = R.T @ (b[0]*u2 + b[1]*s2 + b[2]*e2)
            A = ref.field_matrix(r, t, p, 1, nmax, None, src)
            # other degrees have been shown to be zero
            b = [a @ np.where(dn > lo, 0., M[idx] @ c) for a in A]
            agree(b[0]*up + b[1]*so + b[2]*ea, vec, 1e-8,
                  f'{src} field in both systems',
                  scale=ref.field_scale(c, r, 1, kmax, None, src))


def s_compose(st):
    return st.fixed_dictionaries(dict(nmax=st.integers(1, 5),
                                      a=gen.salt(st), b=gen.salt(st)))


def c_compose(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    n = case['nmax']
    A, B = rotation(case['a']), rotation(case['b'])
    ctx.nontrivial()
    MA, MB, MAB, MT = (as_array(cu.rotate_gauss(n, n, *E), 'rotate_gauss')
                       for E in (A, B, A @ B, A.T))
    agree(MAB, MB @ MA, 1e-9, 'composition of two rotations')
    agree(MT, MA.T, 1e-9, 'inverse rotation')


def s_sh(st):
    @st.composite
    def make(draw):
        deg = draw(st.integers(1, 12))
        nmax = draw(st.integers(1, 12))
        kmax = draw(st.one_of(st.none(), st.integers(1, 14)))
        return dict(deg=deg, nmax=nmax, kmax=kmax, c=draw(
            gen.coeff_spec(st)), mean=draw(st.sampled_from([0., 1., -3.5])))
    return make()


def c_sh(case, ctx):
    cu = harness.chaosmagpy().coordinate_utils
    nmax = case['nmax']
    kw = {} if case['kmax'] is None else dict(kmax=case['kmax'])
    # the degree of the function has to be resolved by the grid
    deg = min(case['deg'], max(nmax, case['kmax'] or nmax))
    c = gen.coeffs(case['c'], deg*(deg + 2))
    lst = ref.index_list(1, deg)
    seen = []

    def func(theta, phi):
        seen.append((theta.shape, phi.shape))
        out = np.full(np.shape(theta), case['mean'])
        for ci, (n, m, kind) in zip(c, lst):
            trig = np.cos if kind == 'g' else np.sin
            out = out + ci*ref.schmidt(n, m, theta)*trig(
                m*np.radians(phi))
        return out

    out = cu.sh_analysis(func, nmax, **kw)
    exp = np.zeros(nmax*(nmax + 2))
    k = min(exp.size, c.size)
    exp[:k] = c[:k]
    ctx.nontrivial(np.count_nonzero(c) > 0 and deg > 1)
    ctx.label('kmax>nmax' if (case['kmax'] or 0) > nmax else 'kmax<=nmax',
              'degree>nmax' if deg > nmax else 'degree<=nmax')
    require(all(len(s[0]) == 2 and s[0] == s[1] for s in seen),
            'func must get 2-D arrays of equal shape')
    agree(out, exp, 1e-9, 'sh_analysis',
          scale=np.sum(np.abs(c)) + abs(case['mean']) + 1e-300)


FACETS = [
    Facet('rot', s_rot, c_rot, 500),
    Facet('compose', s_compose, c_compose, 160),
    Facet('sh', s_sh, c_sh, 500),
    history.facet('C09', 68),
]
