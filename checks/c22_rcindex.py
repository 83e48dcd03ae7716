import os
import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require
import gen
import history

PROPERTY = 'C22'
SCALE = 3         # times the cases of each facet in quick runs
RULE = ('RC-index files with random times, values, flags, headers and number '
        'formats are written, read, converted to HDF5 and used by a model at '
        'random times within, at the ends and outside of the file. '
        'Non-trivial: at least three lines.')
ASSUMPTIONS = ['Times of the file increase strictly.',
               'The fixed point at which RC enters the SM coefficients is '
               'decided by C21.']


def fixed(st, **more):
    return st.fixed_dictionaries(dict(
        n=gen.size(st, 12, 2500, 2), salt=gen.salt(st),
        start=st.sampled_from([0., -1096., 6575.25, 1000.0208333]),
        regular=st.booleans(), long=st.sampled_from([1., 1., 1., 900.]),
        zeros=st.integers(0, 7), header=st.integers(0, 3),
        digits=st.sampled_from([2, 4, 17]), sep=st.sampled_from(
            [' ', '   ', '\t']), eol=st.sampled_from(['\n', '\n', '\r\n']),
        empty=st.lists(st.tuples(st.integers(0, 30), st.sampled_from(
            ['', ' ', '\t', '# 1. 2. 3. 4. D'])), max_size=2),
        tail=st.sampled_from([None, None, '# provisional', '#']),
        flags=st.sampled_from(['D', 'DP', 'QDP']), coarse=st.booleans(),
        **more))


def table(case):
    """The values of the file, rounded as they are printed."""
    n, s = case['n'], case['salt']
    step = np.full(n, 1/24) if case['regular'] else gen.spread(
        s, (n,), .02, 3.*max(1., min(
            case.get('long', 1.), 2e4/n)))
    d = case['digits']
    fmt = (lambda x: repr(float(x))) if d == 17 else \
        (lambda x: f'{x:.{d}f}')
    time = case['start'] + np.cumsum(step)
    tx = [repr(float(x)) if d == 17 else f'{x:.6f}' for x in time]
    cols = [90*fill(s + i, n) for i in (1, 2, 3)]
    if case.get('coarse'):      # the same values again and again
        cols = [np.round(c/45)*45 + 0. for c in cols]
    for i in range(3):      # quiet times
        if case.get('zeros', 0) & 1 << i:
            cols[i][s % n] = 0.
    cols = [[fmt(x) for x in c] for c in cols]
    flag = [case['flags'][(s + i*7) % len(case['flags'])] for i in range(n)]
    if case.get('repeat') and n > 1:    # two successive lines alike
        i = s % (n - 1)
        if case['repeat'] != 'values':
            tx[i+1] = tx[i]
        if case['repeat'] != 'time':
            for c in cols:
                c[i+1] = c[i]
    lines = ['# RC index', '#  time RC RC_e RC_i flag', '#'][:case['header']]
    for row in zip(tx, *cols, flag):
        lines.append(case['sep'].join(row))
    if case.get('tail'):
        lines[-1] += case['sep'] + case['tail']
    for at, what in case.get('empty', ()):
        lines.insert(at % (len(lines) + 1), what)
    text = '\n'.join(lines) + '\n'
    return text, np.array(tx, float), [np.array(c, float) for c in cols], flag


def write(case):
    text, time, cols, flag = table(case)
    with open('RC_1997.dat', 'w', newline=case.get('eol', '\n')) as f:
        f.write(text)
    return time, cols, flag


def s_read(st):
    return fixed(st, parse=st.sampled_from([None, False, True]),
                 repeat=st.sampled_from([None, None, 'line', 'values',
                                         'time']))


def c_read(case, ctx):
    import h5py
    import pandas as pd
    du = harness.chaosmagpy().data_utils
    with harness.scratch():
        time, cols, flag = write(case)
        kw = {} if case['parse'] is None else dict(parse_dates=case['parse'])
        df = du.load_RC_datfile('RC_1997.dat', **kw)
        ctx.nontrivial(case['n'] > 2)
        ctx.label(f'parse_dates={case["parse"]}', f'header={case["header"]}')
        names = ['RC', 'RC_e', 'RC_i', 'flag']
        if case['parse']:
            require(list(df.columns) == names, f'columns {list(df.columns)}')
            ns = (df.index - pd.Timestamp('2000-01-01')).total_seconds()
            agree(np.asarray(ns)/86400., time, 1e-8, 'dates', scale=1.)
        else:
            require(list(df.columns) == ['time'] + names,
                    f'columns {list(df.columns)}')
            agree(df['time'].values, time, 1e-14, 'time')
        for name, c in zip(names, cols):
            agree(df[name].values, c, 1e-14, name)
        require(list(map(str, df['flag'])) == flag, 'flag')
        du.save_RC_h5file('RC.h5', read_from='RC_1997.dat')
        with h5py.File('RC.h5', 'r') as f:
            require(set(f) == set(['time'] + names), f'content {list(f)}')
            agree(f['time'][()], time, 1e-14, 'time in HDF5')
            for name, c in zip(names, cols):
                agree(f[name][()], c, 1e-14, f'{name} in HDF5')
            require([x.decode() for x in f['flag'][()]] == flag,
                    'flag in HDF5')


def s_use(st):
    return fixed(st, kind=st.sampled_from(['dat', 'h5', 'both']),
                 where=st.sampled_from(['inside', 'nodes', 'ends', 'inside']),
                 dims=st.integers(0, 59).flatmap(
                     lambda i: st.just([531]) if i == 59 else st.lists(
                         st.integers(1, 4), max_size=2)), again=st.booleans(),
                 source=st.sampled_from(['external', 'internal']))


def model(cp, salt):
    big = np.array([-1e5, 1e5])
    keys = ('q10', 'q11', 's11')
    return cp.CHAOS(
        big, coeffs_static=np.ones(3), coeffs_gsm=np.zeros(8),
        coeffs_sm=.5 + .4*fill(salt + 20, 8),
        breaks_delta={k: big for k in keys},
        coeffs_delta={k: fill(salt + 21 + i, 1, 1)
                      for i, k in enumerate(keys)})


def interpolate(time, values, t):
    i = np.clip(np.searchsorted(time, t, side='right') - 1, 0, len(time) - 2)
    x = (t - time[i])/(time[i + 1] - time[i])
    return values[i] + x*(values[i + 1] - values[i])


def c_use(case, ctx):
    cp = harness.chaosmagpy()
    with harness.scratch() as d:
        m = model(cp, case['salt'])
        if case.get('again'):       # a file of this name was used before
            time, _, _ = write(dict(case, salt=case['salt'] + 1000))
            if case['kind'] != 'dat':
                cp.data_utils.save_RC_h5file('RC.h5', read_from='RC_1997.dat')
            cp.basicConfig['file.RC_index'] = (
                'RC_1997.dat' if case['kind'] == 'dat' else 'RC.h5')
            for source in ('external', 'internal'):
                m.synth_coeffs_sm(time[0], source=source)
            # written over, or removed before
            for name in ('RC_1997.dat', 'RC.h5')[:2 - case['salt'] % 2]:
                if os.path.exists(os.path.join(d, name)):
                    os.remove(os.path.join(d, name))
        time, (_, rce, rci), _ = write(case)
        if case['where'] == 'inside':
            t = time[0] + (time[-1] - time[0])*gen.spread(
                case['salt'] + 9, tuple(case['dims']), 0., 1.)
            # a node or an end at times
            t = np.clip(t, time[0], time[-1])
        elif case['where'] == 'nodes':
            t = time[::-1].copy()
        else:
            t = time[[0, -1]].copy()
        ctx.nontrivial(case['n'] > 2)
        ctx.label(case['kind'], case['where'], case['source'])
        for kind in (['dat', 'h5'] if case['kind'] == 'both'
                     else [case['kind']]):
            if kind == 'h5':
                cp.data_utils.save_RC_h5file('RC.h5', read_from='RC_1997.dat')
                cp.basicConfig['file.RC_index'] = 'RC.h5'
            else:
                cp.basicConfig['file.RC_index'] = 'RC_1997.dat'
            e, i = (interpolate(time, x, t) for x in (rce, rci))
            rc = e if case['source'] == 'external' else i
            agree(m.synth_coeffs_sm(t, source=case['source']),
                  m.synth_coeffs_sm(t, source=case['source'], rc=rc), 1e-11,
                  f'coefficients with the {kind}-file', scale=100.)
            pos = 6600., 40., -90.
            # one of the two indices is given
            for kw in (dict(rc_e=5 + i), dict(rc_i=7 - e)):
                for src in ('all', 'external', 'internal'):
                    for x, y in zip(
                            m.synth_values_sm(t, *pos, source=src, **kw),
                            m.synth_values_sm(t, *pos, source=src, **dict(
                                dict(rc_e=e, rc_i=i), **kw))):
                        agree(x, y, 1e-10, f'values ({src}) with {list(kw)}',
                              scale=100.)
            for src in ('all', case['source']):
                for x, y in zip(m.synth_values_sm(t, *pos, source=src),
                                m.synth_values_sm(t, *pos, source=src,
                                                  rc_e=e, rc_i=i)):
                    agree(x, y, 1e-10, f'values ({src}) with the {kind}-file',
                          scale=100.)
            for x, y in zip(
                    m(t, *pos, source_list=['sm']),
                    m(t, *pos, source_list=['sm'], rc_e=e, rc_i=i)):
                agree(x, y, 1e-10, f'values with the {kind}-file', scale=100.)


def s_out(st):
    return fixed(st, kind=st.sampled_from(['dat', 'h5']),
                 side=st.sampled_from(['below', 'above']),
                 eps=st.sampled_from([1e-6, 1e-3, 1., 4e3]),
                 more=st.integers(0, 3))


def c_out(case, ctx):
    """Nothing is made up where the index does not exist."""
    cp = harness.chaosmagpy()
    with harness.scratch():
        time, (_, rce, rci), _ = write(case)
        m = model(cp, case['salt'])
        if case['kind'] == 'h5':
            cp.data_utils.save_RC_h5file('RC.h5', read_from='RC_1997.dat')
        cp.basicConfig['file.RC_index'] = (
            'RC.h5' if case['kind'] == 'h5' else 'RC_1997.dat')
        bad = (time[0] - case['eps'] if case['side'] == 'below'
               else time[-1] + case['eps'])
        t = np.append(np.full(case['more'], .5*(time[0] + time[-1])), bad)
        t = np.roll(t, case['salt'] % t.size)
        if case['more'] == 0:
            t = bad
        ctx.nontrivial(case['n'] > 2)
        ctx.label(case['kind'], case['side'])
        for src in ('external', 'internal'):
            rejects('time outside of the RC-index', m.synth_coeffs_sm, t,
                    source=src, exc=ValueError)
        rejects('time outside of the RC-index', m.synth_values_sm, t, 6600.,
                20., 20., exc=ValueError)
        rejects('time outside of the RC-index', m, t, 6600., 20., 20.,
                source_list=['sm'], exc=ValueError)
        # one given index does not replace the other one
        rejects('time outside of the RC-index', m.synth_values_sm, t, 6600.,
                20., 20., rc_e=np.zeros(np.shape(t)), exc=ValueError)
        rejects('time outside of the RC-index', m.synth_values_sm, t, 6600.,
                20., 20., rc_i=np.zeros(np.shape(t)), exc=ValueError)
        # the index that was given is used everywhere
        out = m.synth_coeffs_sm(t, rc=np.ones(np.shape(t)))
        require(np.all(np.isfinite(out)), 'coefficients with a given index')


FACETS = [
    Facet('read', s_read, c_read, 250, 4000),
    Facet('use', s_use, c_use, 250, 4000),
    Facet('out', s_out, c_out, 150, 2000),
    history.facet('C22', 66),
]
