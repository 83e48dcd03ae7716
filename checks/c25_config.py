import json
import os
import pathlib
import numpy as np
import harness
from harness import Facet, agree, fill, rejects, require, same_bytes
import gen

PROPERTY = 'C25'
SCALE = 10         # times the cases of each facet in quick runs
RULE = ('Sequences of settings, resets, context managers (nested, and left by '
        'an exception), saving and loading, against a dictionary as the '
        'model; values of every type, valid and invalid. Non-trivial: at '
        'least three operations.')
ASSUMPTIONS = ['The built-in RC-index file does not come with the source '
               'tree, so that file.RC_index is set to an existing file first '
               'and never reset one by one.',
               'dict.update and dict.setdefault are not part of the checked '
               'interface.']

FLOATS = ['params.r_surf', 'params.r_cmb', 'plots.figure_width']
FILES = ['file.RC_index', 'file.GSM_spectrum', 'file.SM_spectrum',
         'file.Earth_conductivity', 'file.shp_coastline']
LENGTH = {'params.dipole': 3, 'params.ellipsoid': 2}
OTHER = ['params.CHAOS_version', 'params.cdf_to_mjd']
KEYS = FLOATS + FILES + list(LENGTH) + OTHER
UNKNOWN = ['params.rsurf', 'r_surf', '', 'PARAMS.R_SURF', 'file.RC_index ',
           'params.r_surf.x']


NAMES = ['some0.dat', 'some1.dat', 'some2.dat', 'so$HOME.dat', '~root',
         'some %(x)s {0}.dat', 'some..dat', 'søme.dat']


def valid(key, i):
    """A valid value of the setting and what is read back."""
    x = round(float(1 + 99*abs(fill(i, 1)[0])), 6)
    if key in FLOATS:
        return [(x, x), (int(x), float(int(x))), (str(x), x),
                (np.float64(x), x)][i % 4]
    if key in FILES:
        if i % 5 == 4:
            return (None, 'None')[i % 2], None
        name = NAMES[i % len(NAMES)]
        return [name, name, pathlib.Path(name)][i % 3 if i % 4 else 0], name
    if key in LENGTH:
        v = 100*fill(i, LENGTH[key])
        if i % 7 == 3:
            v = np.round(v)
            return v.astype(int).tolist(), v
        return (v if i % 2 else v.tolist()), v
    if key == 'params.CHAOS_version':
        v = f'{i % 9}.{i % 23}'
        return v, v
    return [(i, i), (str(i), i), (float(i), i)][i % 3]


def pick(key, i, model):
    """A valid value, sometimes nearly the present one."""
    if i % 6 == 5 and (key in FLOATS or key in LENGTH):
        x = model[key]*(1. + 10.**-(3 + i % 11))
        if isinstance(x, np.ndarray):
            x = np.where(np.arange(x.size) == i % x.size, x, model[key])
        return x, x
    return valid(key, i)


def invalid(key, i):
    if key in FLOATS:
        return 'abc', ValueError
    if key in FILES:
        return [('not/here.dat', FileNotFoundError),
                ('some0.dat ', FileNotFoundError),
                (pathlib.Path('not/here.dat'), FileNotFoundError),
                (1, (TypeError, ValueError)),       # a file descriptor
                (True, (TypeError, ValueError)),
                (0, (TypeError, ValueError))][i % 6]
    if key in LENGTH:
        n = LENGTH[key]
        return [np.zeros(n + 1), np.zeros(n - 1), np.zeros((1, n)), 5.,
                [], ['a']*n, 'ab' + 'c'*(n - 2), [None] + [{}]*(n - 1)
                ][i % 8], ValueError
    if key == 'params.CHAOS_version':
        return ['seven', 7, '7', ''][i % 4], ValueError
    return ['x7', '7.5', ''][i % 3], ValueError


def read(cfg, model, what):
    require(set(cfg.keys()) == set(model), f'{what}: keys changed')
    for k, v in model.items():
        if isinstance(v, np.ndarray):
            require(isinstance(cfg[k], np.ndarray), f'{what}: {k} is no array')
            agree(cfg[k], v, 0., f'{what}: {k}')
        else:
            got = cfg[k]
            if isinstance(got, os.PathLike):
                got = os.fspath(got)
            require(got == v and type(got) is type(v),
                    f'{what}: {k} is {cfg[k]!r}, expected {v!r}')


def s_ops(st):
    key = st.sampled_from(KEYS)
    op = st.one_of(
        st.fixed_dictionaries(dict(op=st.sampled_from(
            ['set', 'bad', 'set', 'reset', 'inplace']), key=key,
            i=st.integers(0, 10**6))),
        st.fixed_dictionaries(dict(op=st.sampled_from(
            ['full', 'save', 'load', 'unknown', 'partial', 'badfile',
             'empty', 'text', 'gone', 'over']),
            i=st.integers(0, 10**6))))
    ctxop = st.fixed_dictionaries(dict(
        op=st.just('context'), key=key, i=st.integers(0, 10**6),
        how=st.sampled_from(['ok', 'raise', 'bad']),
        inner=st.lists(op, max_size=3)))
    deep = st.fixed_dictionaries(dict(
        op=st.just('context'), key=key, i=st.integers(0, 10**6),
        how=st.sampled_from(['ok', 'raise', 'bad']),
        inner=st.lists(st.one_of(op, ctxop), max_size=3)))
    return st.fixed_dictionaries(dict(ops=st.lists(
        st.one_of(op, op, deep), min_size=1, max_size=9)))


class Left(Exception):
    pass


class Stopped(BaseException):
    """Like KeyboardInterrupt or GeneratorExit."""


STOP = Left, Stopped, KeyboardInterrupt, ValueError, GeneratorExit


def run(ops, cfg, model, defaults, files, ctx):
    for o in ops:
        kind, i = o['op'], o['i']
        ctx.label(kind)
        if kind == 'set':
            v, e = pick(o['key'], i, model)
            e = e.copy() if isinstance(e, np.ndarray) else e
            cfg[o['key']] = v
            model[o['key']] = e
            if isinstance(v, np.ndarray) and v.ndim:
                v += 1.  # the caller goes on using the array
        elif kind == 'bad':
            v, err = invalid(o['key'], i)
            rejects(f'{o["key"]} = {v!r}', cfg.__setitem__, o['key'], v,
                    exc=err)
        elif kind == 'inplace':
            key = sorted(LENGTH)[i % 2]
            cfg[key][i % 2] = 1000. + i
            v = np.array(model[key], float)
            v[i % 2] = 1000. + i
            model[key] = v
        elif kind == 'unknown':
            word = UNKNOWN[i % len(UNKNOWN)]
            rejects('unknown setting', cfg.__setitem__, word, 1., exc=KeyError)
            rejects('unknown setting', cfg.reset, word, exc=KeyError)
        elif kind == 'reset':
            if o['key'] != 'file.RC_index':
                cfg.reset(o['key'])
                model[o['key']] = defaults[o['key']]
        elif kind == 'full':
            cfg.fullreset()
            model.update(defaults)
            cfg['file.RC_index'] = 'some0.dat'
            model['file.RC_index'] = 'some0.dat'
        elif kind == 'save':
            name = f'conf{len(files)}.json'
            if files and i % 3 == 0:        # saved once more, over the old
                name, _ = files.pop(i % len(files))
            else:
                harness.used(name, i//3)
            cfg.save(name)
            with open(name) as f:
                j = json.load(f)
            require(set(j) == set(model), 'settings in the file')
            files.append((name, dict(model)))
            if i % 2:
                cfg.load(name)      # nothing changes
        elif kind == 'over':        # a changed setting saved over the old
            cfg.save('over.json')
            key = KEYS[i % len(KEYS)]
            old = model[key]
            v, e = pick(key, i//7, model)
            cfg[key] = v
            model[key] = e.copy() if isinstance(e, np.ndarray) else e
            cfg.save('over.json')
            cfg[key] = old
            cfg.load('over.json')
        elif kind == 'load':
            if files:
                name, saved = files[i % len(files)]
                cfg.load(name)
                model.update(saved)
        elif kind == 'partial':
            key = KEYS[i % len(KEYS)]
            v, e = pick(key, i, model)
            with open('part.json', 'w') as f:
                json.dump({key: os.fspath(v) if isinstance(v, os.PathLike)
                           else v.tolist() if hasattr(v, 'tolist') else v}, f)
            cfg.load('part.json')
            model[key] = e
        elif kind == 'badfile':
            with open('bad.json', 'w') as f:
                json.dump({UNKNOWN[i % len(UNKNOWN)]: 1.}, f)
            rejects('unknown setting in file', cfg.load, 'bad.json',
                    exc=KeyError)
        elif kind == 'empty':
            with open('empty.json', 'w') as f:
                f.write('{}')
            cfg.load('empty.json')
        elif kind == 'gone':        # the file is removed in the meantime
            key = FILES[i % len(FILES)]
            with open('gone.dat', 'w'):
                pass
            cfg[key] = 'gone.dat'
            model[key] = 'gone.dat'
            try:
                with cfg.context(key, 'some1.dat'):
                    os.remove('gone.dat')
                    if i % 2:
                        raise Left
            except Left:
                pass
            read(cfg, model, 'after a file is removed')
            cfg[key] = 'some2.dat'
            model[key] = 'some2.dat'
        elif kind == 'text':
            require(all(k in str(cfg) for k in model), 'text of the settings')
        elif kind == 'context':
            old = model[o['key']]
            if o['how'] == 'bad':
                v, err = invalid(o['key'], i)
                try:
                    with cfg.context(o['key'], v):
                        require(False, f'context accepted {v!r}')
                except err:
                    pass
            else:
                v, e = pick(o['key'], i, model)
                try:
                    with cfg.context(o['key'], v):
                        model[o['key']] = e
                        read(cfg, model, 'in the context')
                        run(o['inner'], cfg, model, defaults, files, ctx)
                        if o['how'] == 'raise':
                            raise STOP[i % len(STOP)]
                except STOP:
                    pass
                model[o['key']] = old
        read(cfg, model, f'after {kind}')


def count(ops):
    return sum(1 + count(o.get('inner', [])) for o in ops)


def c_ops(case, ctx):
    cp = harness.chaosmagpy()
    cfg = cp.basicConfig
    with harness.scratch():
        for name in NAMES:
            open(name, 'w').close()
        cfg['file.RC_index'] = 'some0.dat'
        model = {k: (v.copy() if isinstance(v, np.ndarray) else v)
                 for k, v in dict(cfg).items()}
        require(set(model) == set(KEYS), f'settings {sorted(model)}')
        defaults = {
            'params.r_surf': 6371.2, 'params.r_cmb': 3485.0,
            'params.dipole': np.array([-29442.0, -1501.0, 4797.1]),
            'params.ellipsoid': np.array([6378.137, 6356.752]),
            'params.cdf_to_mjd': 730485, 'plots.figure_width': 6.3}
        for k in KEYS:
            defaults.setdefault(k, model[k])
        read(cfg, defaults, 'after the import')
        ctx.nontrivial(count(case['ops']) > 2)
        run(case['ops'], cfg, model, defaults, [], ctx)


def s_effect(st):
    return st.fixed_dictionaries(dict(
        r=gen.f(st, 100., 9000.), salt=gen.salt(st),
        leave=st.sampled_from(['ok', 'raise'])))


def c_effect(case, ctx):
    """A setting acts while it is set and no longer."""
    cp = harness.chaosmagpy()
    mu = cp.model_utils
    c = fill(case['salt'], 8)
    pos = 7000., 40., 50.
    ctx.nontrivial()
    before = mu.synth_values(c, *pos)
    try:
        with cp.basicConfig.context('params.r_surf', case['r']):
            inside = mu.synth_values(c, *pos)
            if case['leave'] == 'raise':
                raise Left
    except Left:
        pass
    after = mu.synth_values(c, *pos)
    require(same_bytes([np.asarray(x) for x in before],
                       [np.asarray(x) for x in after]),
            'field after the context')
    scaled = mu.synth_values(c, pos[0]*6371.2/case['r'], *pos[1:])
    sc = 30*np.sum(np.abs(c))*max(1., case['r']/7000)**4
    for a, b in zip(inside, scaled):
        agree(a, b, 1e-11, 'field within the context', scale=sc)


FACETS = [
    Facet('ops', s_ops, c_ops, 700),
    Facet('effect', s_effect, c_effect, 100, 1000),
]
