import copy
import os
import numpy as np
import harness
from harness import Facet, agree, as_array, fill, require
import gen
import history
from c15_timedep import pp
from c16_extrapolation import model_at

PROPERTY = 'C19'
SCALE = 3         # times the cases of each facet in quick runs
RULE = ('CHAOS models with random sizes, random numbers of satellites and '
        'bins (including none and one) and random missing parts are saved '
        'and loaded; MAT-files of both formats are written by SciPy and '
        'hdf5storage from random raw values; the MAT-file that comes with '
        'the documentation is compared with SciPy. Non-trivial: more than '
        'one part of the model is present.')
ASSUMPTIONS = ['A MAT-file is always written to a new file.',
               'Of the GSM coefficients, only those with m=0 and n=1, 2 exist '
               'in the CHAOS MAT-file format; two breaks vectors (q10, qs11) '
               'and calibration parameters of cryosat-2_1 only, as well.',
               'Models are saved with meta, as the documentation demands a '
               'fully specified model.']

NAMES = ['oersted', 'champ', 'sac_c', 'swarm_a', 'swarm_b', 'swarm_c',
         'cryosat-2_1', 'cryosat-2_2', 'cryosat-2_3']
DOC = os.path.join(harness.REPO, 'docs', 'source', '.static', 'examples',
                   'CHAOS-7.mat')


def grid(salt, n):
    """n+1 increasing numbers."""
    return 100.*(salt % 7) + np.cumsum(gen.spread(salt, (n + 1,), .5, 300.))


def raw_values(case):
    """Random contents of a CHAOS MAT-file, as plain arrays."""
    s = case['salt']
    raw = {}
    case['dim'] = case['deg']*(case['deg'] + 2)
    case['uniform'] = False
    breaks, coeffs = pp(case)
    raw['breaks'], raw['coeffs'] = breaks, coeffs
    nst = case['static']
    raw['g'] = fill(s + 2, nst*(nst + 2)) if nst else None
    if case['ext']:
        nq, ns = case['delta']
        raw['t_q10'], raw['t_qs11'] = grid(s + 3, nq), grid(s + 4, ns)
        if case['int_breaks']:
            raw['t_q10'] = np.round(raw['t_q10']) + np.arange(nq + 1)
            raw['t_qs11'] = np.round(raw['t_qs11']) + np.arange(ns + 1)
        raw['q10'] = fill(s + 5, nq)
        raw['qs11'] = fill(s + 6, ns, 2)
        raw['m_sm'] = fill(s + 7, case.get('n_sm', 2)*(case.get('n_sm', 2) + 2))
        raw['m_gsm'] = fill(s + 8, 2)
        raw['m_Dst'] = fill(s + 9, 3)
        for k in ('q10', 'qs11', 'm_sm', 'm_gsm', 'm_Dst'):
            raw[k] = raw[k]*case.get('amp', 1.)
    raw['euler'] = None
    if case['bins'] is not None:
        raw['euler'] = [
            (grid(s + 10 + i, b) if b else grid(s + 10 + i, 0),
             fill(s + 50 + i, b, 3)) for i, b in enumerate(case['bins'])]
        raw['pre'] = (fill(s + 90, len(case['bins']), 3) if case['pre']
                      else None)
    raw['cal'] = None
    if case['cal']:
        raw['cal'] = (grid(s + 100, case['cal']),
                      fill(s + 101, case['cal'], 9))
    return raw


def s_model(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 6), pieces=gen.size(st, 4, 300),
        deg=gen.size(st, 4, 20), salt=gen.salt(st),
        static=st.one_of(st.just(0), st.integers(1, 5), st.integers(1, 60)),
        ext=st.sampled_from([True, True, True, False]),
        amp=st.sampled_from([1., 1., 1e-5, 1e3, 1e5]),
        delta=st.tuples(gen.size(st, 4, 300), gen.size(st, 4, 300)),
        int_breaks=st.booleans(), n_sm=st.sampled_from([2, 2, 3, 1, 4]),
        bins=st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=1,
                                           max_size=4),
                       st.lists(st.just(2), min_size=1, max_size=3),
                       st.lists(st.integers(0, 2), min_size=8,
                                max_size=11)),
        pre=st.booleans(), cal=gen.size(st, 3, 20, 0),
        names=st.sampled_from(['own', 'default', 'fewer', 'fewer tuple', 'more',
                               'tuple']),
        name=st.sampled_from([None, 'Mein Modell']),
        file=st.sampled_from(['a.mat', 'CHAOS-9.mat', 'x.y.mat']),
        fmt=st.sampled_from(['5', '7.3', '5c', 'int'])))


def check_model(case, ctx, m, raw, sats, name, from_file=True):
    require(m.name == name, f'name: {m.name!r}, expected {name!r}')
    t = m.model_tdep
    require(t is not None and t.order == case['order']
            and t.pieces == case['pieces'] and t.dim == case['dim']
            and t.nmax == case['deg'] and t.source == 'internal',
            'model_tdep: order, pieces, dim, nmax or source')
    agree(t.breaks, raw['breaks'], 0., 'breaks')
    agree(t.coeffs, raw['coeffs'], 0., 'coeffs_tdep')
    if raw['g'] is None:
        require(m.model_static is None, 'static model appeared')
    else:
        agree(m.model_static.coeffs, raw['g'][None, None], 0.,
              'coeffs_static')
        require(m.model_static.nmax == case['static'], 'nmax of static')
        agree(m.synth_coeffs_static(), raw['g'], 0., 'synth_coeffs_static')
    if not case['ext']:
        require(m.coeffs_sm is None and m.coeffs_gsm is None,
                'external model appeared')
    else:
        sm = raw['m_sm'].copy()
        sm[:3] = raw['m_Dst']
        agree(m.coeffs_sm, sm, 0., 'coeffs_sm')
        gsm = np.zeros(8)
        gsm[0], gsm[3] = raw['m_gsm']
        agree(m.coeffs_gsm, gsm, 0., 'coeffs_gsm')
        require(m.n_sm == case.get('n_sm', 2) and m.n_gsm == 2, 'n_sm or n_gsm')
        agree(m.breaks_delta['q10'], raw['t_q10'], 0., 'breaks q10')
        for k in ('q11', 's11'):
            agree(m.breaks_delta[k], raw['t_qs11'], 0., f'breaks {k}')
        agree(m.coeffs_delta['q10'], raw['q10'][None], 0., 'delta q10')
        agree(m.coeffs_delta['q11'], raw['qs11'][None, :, 0], 0., 'delta q11')
        agree(m.coeffs_delta['s11'], raw['qs11'][None, :, 1], 0., 'delta s11')
    if raw['euler'] is None:
        require(m.model_euler is None, 'Euler angles appeared')
    else:
        require(list(m.model_euler) == sats,
                f'satellites {list(m.model_euler)}, expected {sats}')
        require(tuple(m.meta['satellites']) == tuple(sats),
                'satellites in meta')
        for i, (sat, (b, c)) in enumerate(zip(sats, raw['euler'])):
            e = m.model_euler[sat]
            require(e.order == 1 and e.name == sat, f'Euler model {sat}')
            if len(c):
                agree(e.breaks, b, 0., f'Euler breaks {sat}')
                agree(e.coeffs, c[None], 0., f'Euler coeffs {sat}')
                x = .5*(b[1:] + b[:-1])
                agree(m.synth_euler_angles(x, sat), c, 0.,
                      f'synth_euler_angles {sat}')
            else:
                require(np.all(np.asarray(e.breaks) == b[0])
                        and np.size(e.coeffs) == 0, f'empty bins {sat}')
            pre = e.meta['Euler_prerotation']
            if raw['pre'] is None:
                require(pre is None, f'pre-rotation of {sat} appeared')
            else:
                agree(pre, raw['pre'][i], 0., f'pre-rotation {sat}')
    if raw['cal'] is None:
        require(m.model_cal is None, 'calibration parameters appeared')
    else:
        require(list(m.model_cal) == ['cryosat-2_1'], 'satellites of cal')
        e = m.model_cal['cryosat-2_1']
        agree(e.breaks, raw['cal'][0], 0., 'cal breaks')
        agree(e.coeffs, raw['cal'][1][None], 0., 'cal coeffs')


def coverage(case, ctx):
    ctx.nontrivial(case['ext'] + bool(case['static'])
                   + (case['bins'] is not None) + bool(case['cal']) > 1)
    ctx.label('static' if case['static'] else 'no static',
              'external' if case['ext'] else 'no external',
              'no Euler' if case['bins'] is None
              else 'one satellite' if len(case['bins']) == 1
              else 'equal bins' if len(set(case['bins'])) == 1
              else 'several satellites', f'order={case["order"]}',
              f'cal bins={min(case["cal"], 4)}', f'pre={case["pre"]}')
    if case['ext']:
        ctx.label(f'delta bins={min(case["delta"])}')


def satellites(case):
    """What is given as satellite names, and what they have to be."""
    n = 0 if case['bins'] is None else len(case['bins'])
    kind = case['names']
    own = [f'sat{chr(97 + i)}' for i in range(n)]
    if kind == 'default' or n == 0:
        full = NAMES + [f'satellite_{i}' for i in range(10, n + 1)]
        return None, full[:n]
    if kind in ('fewer', 'fewer tuple') and n > 1:
        some = own[:n-1]
        return (some if kind == 'fewer' else tuple(some)), own[:n-1] + [f'satellite_{n}']
    if kind == 'more':
        return own + ['unused'], own
    return (tuple(own) if kind == 'tuple' else own), own


def c_save(case, ctx):
    cp = harness.chaosmagpy()
    raw = raw_values(case)
    coverage(case, ctx)
    given, sats = satellites(case)
    kw = dict(order=case['order'], coeffs_tdep=raw['coeffs'])
    if raw['g'] is not None:
        kw['coeffs_static'] = raw['g'][None, None]
    if case['ext']:
        sm = raw['m_sm'].copy()
        sm[:3] = raw['m_Dst']
        gsm = np.zeros(8)
        gsm[0], gsm[3] = raw['m_gsm']
        kw.update(coeffs_sm=sm, coeffs_gsm=gsm,
                  breaks_delta=dict(q10=raw['t_q10'], q11=raw['t_qs11'],
                                    s11=raw['t_qs11']),
                  coeffs_delta=dict(q10=raw['q10'][None],
                                    q11=raw['qs11'].T[:1],
                                    s11=raw['qs11'].T[1:]))
    params = {'Euler_prerotation': None}
    if raw['euler'] is not None:
        kw.update(breaks_euler={s: b for s, (b, _) in
                                zip(sats, raw['euler'])},
                  coeffs_euler={s: c[None] for s, (_, c) in
                                zip(sats, raw['euler'])})
        params = {'Euler_prerotation': raw['pre']}
    if raw['cal'] is not None:
        kw.update(breaks_cal={'cryosat-2_1': raw['cal'][0]},
                  coeffs_cal={'cryosat-2_1': raw['cal'][1][None]})
    m = cp.CHAOS(raw['breaks'], name='first',
                 meta=dict(params=params, satellites=tuple(sats)), **kw)
    with harness.scratch() as d:
        f = os.path.join(d, case['file'])
        m.save_matfile(f)
        # the model itself is still the same after saving
        check_model(case, ctx, m, raw, sats, 'first')
        skw = {} if given is None else dict(satellites=given)
        if case['name']:
            skw['name'] = case['name']
        before = copy.deepcopy(skw)
        n = cp.CHAOS.from_mat(f, **skw)
        require(skw == before, f'given satellites {before} became {skw}')
        expect = case['name'] or case['file'][:-4]
        check_model(case, ctx, n, raw, sats, expect)
        g = os.path.join(d, 'second.mat')
        n.save_matfile(g)
        k = cp.load_CHAOS_matfile(g, **skw)
        check_model(case, ctx, k, raw, sats, case['name'] or 'second')


def c_load(case, ctx):
    import scipy.io
    import hdf5storage
    cp = harness.chaosmagpy()
    raw = raw_values(case)
    coverage(case, ctx)
    ctx.label(f'format={case["fmt"]}')
    given, sats = satellites(case)
    num = (lambda x: np.array(
        [[x]], np.min_scalar_type(x))) if case['fmt'] == 'int' \
        else (lambda x: np.array([[x]], float))
    c = raw['coeffs']
    rows = [[c[o, p, d] for o in range(c.shape[0])]
            for p in range(c.shape[1]) for d in range(c.shape[2])]
    mat = {'pp': dict(form='pp', breaks=raw['breaks'][None],
                      coefs=np.array(rows), pieces=num(case['pieces']),
                      order=num(case['order']), dim=num(case['dim']))}
    if raw['g'] is not None:
        mat['g'] = raw['g'][:, None]
    if case['ext']:
        mat['model_ext'] = dict(
            t_break_q10=raw['t_q10'][:, None], q10=raw['q10'][:, None],
            t_break_qs11=raw['t_qs11'][:, None], qs11=raw['qs11'],
            m_sm=raw['m_sm'][:, None], m_gsm=raw['m_gsm'][:, None],
            m_Dst=raw['m_Dst'][:, None])

    def cell(values):
        out = np.empty((1, len(values)), object)
        for i, v in enumerate(values):
            out[0, i] = v
        return out

    if raw['euler'] is not None:
        mat['model_Euler'] = dict(
            t_break_Euler=cell([b[:, None] for b, _ in raw['euler']]),
            **{k: cell([e[:, i:i+1] for _, e in raw['euler']])
               for i, k in enumerate(['alpha', 'beta', 'gamma'])})
        if raw['pre'] is not None:
            mat['params'] = dict(Euler_prerotation=raw['pre'], a=6371.2)
    if raw['cal'] is not None:
        b, e = raw['cal']
        mat['pp_CAL'] = cell([dict(
            form='pp', breaks=b[None], coefs=e.reshape(-1, 1),
            pieces=num(len(e)), order=num(1), dim=num(9))])
    with harness.scratch() as d:
        f = os.path.join(d, case['file'])
        if case['fmt'] == '7.3':
            hdf5storage.savemat(f, mat, format='7.3', truncate_existing=True)
        else:
            scipy.io.savemat(f, mat, do_compression=case['fmt'] == '5c')
        skw = {} if given is None else dict(satellites=given)
        if case['name']:
            skw['name'] = case['name']
        before = copy.deepcopy(skw)
        m = cp.load_CHAOS_matfile(f, **skw)
        require(skw == before, f'given satellites {before} became {skw}')
        check_model(case, ctx, m, raw, sats, case['name'] or case['file'][:-4])


def s_pp(st):
    return st.fixed_dictionaries(dict(
        order=st.integers(1, 6), pieces=st.integers(1, 4),
        dim=st.integers(1, 9), salt=gen.salt(st), uniform=st.booleans(),
        points=st.integers(1, 6), kind=st.sampled_from(['Base', 'BaseModel']),
        path=st.sampled_from([None, '/pp', '/other', '/a/b'])))


def c_pp(case, ctx):
    """The file means to MATLAB's ppval what the model means."""
    import h5py
    cp = harness.chaosmagpy()
    if case['kind'] == 'BaseModel':
        case['dim'] = [3, 8, 15][case['dim'] % 3]
    breaks, coeffs = pp(case)
    m = getattr(cp.chaos, case['kind'])('m', breaks, case['order'],
                                        coeffs.copy())
    ctx.nontrivial(case['pieces'] > 1 and case['dim'] > 1)
    ctx.label(case['kind'], f'path={case["path"]}')
    t = breaks[0] + (breaks[-1] - breaks[0])*gen.spread(
        case['salt'] + 9, (case['points'],), 0., 1.)

    def ppval(d, x):
        b, c = np.ravel(d['breaks']), np.asarray(d['coefs'])
        l, k, dim = (int(np.ravel(d[q])[0]) for q in
                     ('pieces', 'order', 'dim'))
        require((l, k, dim) == (case['pieces'], case['order'], case['dim']),
                'pieces, order, dim of the pp-form')
        require(c.shape == (l*dim, k), f'shape of coefs {c.shape}')
        require(np.shape(d['breaks']) == (1, l + 1), 'shape of breaks')
        i = np.clip(np.searchsorted(b, x, side='right') - 1, 0, l - 1)
        rows = c[i*dim: (i + 1)*dim]
        return np.array([np.polyval(r, x - b[i]) for r in rows])

    d = m.to_ppdict()
    require(str(d['form']) == 'pp', 'form')
    size = 1e-12*1e3*6*4.**6
    exp = model_at(breaks, coeffs, t, case['order'], 0)
    agree(np.array([ppval(d, x) for x in t]), exp, size, 'to_ppdict')
    # the dictionary is detached from the model
    d['breaks'][:] = 0.
    d['coefs'][:] = 0.
    agree(m.coeffs, coeffs, 0., 'coeffs after to_ppdict')
    agree(m.breaks, breaks, 0., 'breaks after to_ppdict')
    with harness.scratch() as tmp:
        f = os.path.join(tmp, 'm.mat')
        m.save_matfile(f, **({} if case['path'] is None
                             else dict(path=case['path'])))
        with h5py.File(f, 'r') as h:
            g = h[case['path'] or '/pp']
            # MATLAB stores arrays in column-major order
            d = {k: np.asarray(g[k]).T for k in
                 ('breaks', 'coefs', 'pieces', 'order', 'dim')}
            form = ''.join(map(chr, np.ravel(g['form'])))
            require(form == 'pp', f'form {form!r}')
            require(g['form'].attrs['MATLAB_class'] == b'char',
                    'MATLAB class of form')
            require(g['coefs'].attrs['MATLAB_class'] == b'double',
                    'MATLAB class of coefs')
        agree(np.array([ppval(d, x) for x in t]), exp, size, 'MAT-file')
        if case['path'] in (None, '/pp'):
            x = cp.data_utils.load_matfile(f)['pp']
            agree(np.ravel(x['breaks']), breaks, 0., 'loaded breaks')
            agree(np.reshape(x['coefs'], (-1, case['order'])),
                  coeffs.reshape(case['order'], -1).T, 0., 'loaded coefs')


def s_any(st):
    leaf = st.fixed_dictionaries(dict(
        t=st.just('num'), shape=st.tuples(st.integers(1, 3),
                                          st.integers(1, 3)),
        salt=gen.salt(st)))
    text = st.fixed_dictionaries(dict(
        t=st.just('str'), v=st.text('abcXYZ 019', min_size=1, max_size=6)))

    def deeper(inner):
        key = st.text('abcdefg', min_size=1, max_size=3)
        return st.one_of(
            st.fixed_dictionaries(dict(t=st.just('struct'), v=st.dictionaries(
                key, inner, min_size=1, max_size=3))),
            st.fixed_dictionaries(dict(t=st.just('cell'), v=st.lists(
                inner, min_size=1, max_size=3))))
    return st.fixed_dictionaries(dict(
        fmt=st.sampled_from(['5', '7.3']), value=st.dictionaries(
            st.text('abcdefg', min_size=1, max_size=3),
            st.recursive(st.one_of(leaf, leaf, text), deeper, max_leaves=6),
            min_size=1, max_size=3)))


def c_any(case, ctx):
    """Nested structures and cells come out as dictionaries and arrays."""
    import scipy.io
    import hdf5storage
    du = harness.chaosmagpy().data_utils

    def build(v):
        if v['t'] == 'num':
            return fill(v['salt'], *v['shape'])
        if v['t'] == 'str':
            return v['v']
        if v['t'] == 'struct':
            return {k: build(x) for k, x in v['v'].items()}
        out = np.empty((1, len(v['v'])), object)
        for i, x in enumerate(v['v']):
            out[0, i] = build(x)
        return out

    def only(v, path):
        """Cells inside cells or structs inside longer cells keep a raw
        form: only what the documentation promises is compared."""
        if v['t'] == 'struct':
            return {k: only(x, path) for k, x in v['v'].items()}
        if v['t'] == 'cell' and len(v['v']) == 1:
            return only(v['v'][0], path)
        return v

    def compare(a, v, what):
        if isinstance(v, dict) and 't' not in v:
            require(isinstance(a, dict) and set(a) == set(v),
                    f'{what}: got {type(a).__name__} '
                    f'{list(a) if isinstance(a, dict) else ""}, expected '
                    f'fields {list(v)}')
            for k in v:
                compare(a[k], v[k], f'{what}.{k}')
        elif v['t'] == 'num':
            agree(a, fill(v['salt'], *v['shape']).squeeze(), 0., what)
        elif v['t'] == 'str':
            require(np.size(a) == 1 and str(np.ravel(a)[0]) == v['v'],
                    f'{what}: {a!r}, expected {v["v"]!r}')
        elif v['t'] == 'cell':
            require(np.shape(a) == (len(v['v']),) and a.dtype == object,
                    f'{what}: cell is {type(a).__name__} {np.shape(a)}')
            for i, x in enumerate(v['v']):
                if x['t'] == 'num':
                    agree(np.asarray(a[i]).squeeze(),
                          fill(x['salt'], *x['shape']).squeeze(), 0.,
                          f'{what}[{i}]')

    def depth(v):
        return 1 + max([depth(x) for x in (
            v['v'].values() if v['t'] == 'struct' else v['v'])]) \
            if v['t'] in ('struct', 'cell') else 0

    mat = {k: build(v) for k, v in case['value'].items()}
    ctx.nontrivial(max(depth(v) for v in case['value'].values()) > 0)
    ctx.label(f'format={case["fmt"]}', *[v['t'] for v in
                                         case['value'].values()])
    with harness.scratch() as d:
        f = os.path.join(d, 'any.mat')
        if case['fmt'] == '7.3':
            hdf5storage.savemat(f, mat, format='7.3', truncate_existing=True)
        else:
            scipy.io.savemat(f, mat)
        out = du.load_matfile(f)
        require(set(k for k in out if not k.startswith('__')) == set(mat),
                'variables of the file')
        for k, v in case['value'].items():
            compare(out[k], only(v, k), k)
        some = sorted(mat)[:1]
        part = du.load_matfile(f, variable_names=some)
        require(set(k for k in part if not k.startswith('__')) == set(some),
                'variable_names')
        compare(part[some[0]], only(case['value'][some[0]], some[0]), some[0])


_doc = {}


def document():
    """The model file of the documentation, loaded twice (independently)."""
    import scipy.io
    if not _doc:
        if not os.path.exists(DOC):
            _doc['none'] = True
            return None
        _doc['raw'] = scipy.io.loadmat(DOC, variable_names=[
            'pp', 'g', 'model_ext', 'model_Euler', 'params', 'pp_CAL'])
        _doc['model'] = harness.chaosmagpy().CHAOS.from_mat(DOC)
    return None if 'none' in _doc else (_doc['model'], _doc['raw'])


def s_doc(st):
    return st.fixed_dictionaries(dict(
        x=gen.f(st, 0., 1.), nmax=st.integers(1, 20), sat=st.integers(0, 8)))


def c_doc(case, ctx):
    both = document()
    if both is None:
        ctx.label('file is missing')
        return
    m, raw = both
    p = raw['pp'][0, 0]
    b = p['breaks'].ravel()
    t = b[0] + (b[-1] - b[0])*case['x']
    i = min(max(int(np.searchsorted(b, t, side='right')) - 1, 0), len(b) - 2)
    c = p['coefs'][i*440:(i + 1)*440]
    n = case['nmax']
    ctx.nontrivial()
    exp = np.array([np.polyval(r, t - b[i]) for r in c[:n*(n + 2)]])
    agree(m.synth_coeffs_tdep(t, nmax=n), exp, 1e-10, 'synth_coeffs_tdep')
    g = raw['g'].ravel()
    k = (case['nmax']*9 + case['sat'])
    agree(m.synth_coeffs_static(nmax=k), g[:k*(k + 2)], 0.,
          'synth_coeffs_static')
    e = raw['model_Euler'][0, 0]
    sat = NAMES[case['sat']]
    eb = e['t_break_Euler'][0, case['sat']].ravel().astype(float)
    agree(m.model_euler[sat].meta['Euler_prerotation'],
          raw['params'][0, 0]['Euler_prerotation'][case['sat']], 0.,
          'pre-rotation')
    if len(eb) > 1:
        t = eb[0] + (eb[-1] - eb[0])*case['x']
        i = min(int(np.searchsorted(eb, t, side='right')) - 1, len(eb) - 2)
        exp = [e[q][0, case['sat']][i, 0] for q in ('alpha', 'beta',
                                                    'gamma')]
        agree(m.synth_euler_angles(t, sat), np.array(exp, float), 0.,
              'synth_euler_angles')
    x = raw['model_ext'][0, 0]
    agree(m.coeffs_sm, np.concatenate([x['m_Dst'].ravel(),
                                       x['m_sm'].ravel()[3:]]), 0.,
          'coeffs_sm')
    agree(m.coeffs_gsm[[0, 3]], x['m_gsm'].ravel(), 0., 'coeffs_gsm')
    agree(m.coeffs_delta['q10'], x['q10'].T, 0., 'q10')
    agree(m.coeffs_delta['s11'], x['qs11'][:, 1:].T, 0., 's11')
    agree(np.asarray(m.breaks_delta['s11'], float),
          x['t_break_qs11'].ravel().astype(float), 0., 's11 breaks')


def s_parts(st):
    bins = st.lists(gen.size(st, 4, 60), min_size=1, max_size=10)
    return st.fixed_dictionaries(dict(
        salt=gen.salt(st), euler=st.one_of(st.none(), bins),
        cal=st.one_of(st.none(), bins), dim=st.integers(1, 12),
        pre=st.sampled_from([None, 'all', 'empty', 'none']),
        order=st.sampled_from(['same', 'reversed']),
        name=st.sampled_from([None, 'A model', 7])))


def c_parts(case, ctx):
    """Parts of a model that is made from dictionaries."""
    cp = harness.chaosmagpy()
    s = case['salt']

    def part(bins, salt, dim):
        names = [f'{"zyxa"[i % 4]}{i}' for i in range(len(bins))]
        b = {x: grid(s + salt + i, n)
             for i, (x, n) in enumerate(zip(names, bins))}
        c = {x: fill(s + salt + 50 + i, 1, n, dim)
             for i, (x, n) in enumerate(zip(names, bins))}
        if case['order'] == 'reversed':     # other order of the coefficients
            c = dict(reversed(list(c.items())))
        return names, b, c
    kw, meta = {}, None
    if case['euler']:
        euler = part(case['euler'], 10, 3)
        kw.update(breaks_euler=euler[1], coeffs_euler=euler[2])
        pre = fill(s + 200, len(case['euler']), 3)
        meta = {None: None, 'all': dict(params=dict(Euler_prerotation=pre)),
                'empty': dict(params={}), 'none': dict(
                    params=dict(Euler_prerotation=None))}[case['pre']]
        kw['meta'] = meta
    if case['cal']:
        cal = part(case['cal'], 300, case['dim'])
        kw.update(breaks_cal=cal[1], coeffs_cal=cal[2])
    if case['name'] is not None:
        kw['name'] = str(case['name'])
    m = cp.CHAOS(np.array([0., 1.]), 1, coeffs_tdep=fill(s, 1, 1, 3), **kw)
    ctx.nontrivial(len(case['euler'] or []) + len(case['cal'] or []) > 1)
    ctx.label(f'Euler: {min(len(case["euler"] or []), 5)}',
              f'calibration: {min(len(case["cal"] or []), 5)}')
    require(m.name == kw.get('name', 'CHAOS'), 'name')
    require(m.meta is meta, 'meta')
    for what, models, given in (
            ('Euler angles', m.model_euler, case['euler'] and euler),
            ('calibration', m.model_cal, case['cal'] and cal)):
        if not given:
            require(models is None, f'{what} appeared')
            continue
        names, b, c = given
        require(list(models) == names, f'{what}: {list(models)}')
        for i, x in enumerate(names):
            e = models[x]
            require(e.name == x and e.order == 1
                    and e.pieces == c[x].shape[1] and e.dim == c[x].shape[2],
                    f'{what} of {x}: name, order, pieces or dimension')
            agree(e.breaks, b[x], 0., f'{what}: breaks of {x}')
            agree(e.coeffs, c[x], 0., f'{what}: coefficients of {x}')
            if what != 'calibration':
                p = e.meta['Euler_prerotation']
                if case['pre'] == 'all':
                    agree(p, pre[i], 0., f'pre-rotation of {x}')
                else:
                    require(p is None, f'pre-rotation of {x} appeared')


FACETS = [
    Facet('save', s_model, c_save, 250, 4000),
    Facet('load', s_model, c_load, 250, 4000),
    Facet('parts', s_parts, c_parts, 250),
    Facet('pp', s_pp, c_pp, 300),
    Facet('any', s_any, c_any, 350),
    Facet('doc', s_doc, c_doc, 100, 1000),
    history.facet('C19', 33),
]
