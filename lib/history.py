"""Histories of calls against the same call in a pristine process.

A world is a set of calls (worlds.py) with a few options for every argument.
A case is a sequence of calls, most of which differ from an earlier one in a
single argument, in the configuration, in the content of a file or of the
model. The whole sequence runs in one process, with objects and arrays that
are shared by the calls; every call runs again in a process of its own, in
which nothing was computed before. Both have to give the same.

The processes are forks of one server, which is forked off after the import of
the package and before anything was computed. So a case depends on nothing but
itself, and a replay gives the same.
"""
import ctypes
import os
import pickle
import signal
import socket
import struct
import sys
import tempfile
import threading
import numpy as np
import harness
from harness import Facet, Violation
import gen

SECONDS = 60
_server = None


# ------------------------------------------------------------- the server

def _recv(conn):
    def read(n):
        out = b''
        while len(out) < n:
            x = conn.recv(min(n - len(out), 1 << 20))
            if not x:
                raise EOFError
            out += x
        return out
    return pickle.loads(read(struct.unpack('<q', read(8))[0]))


def _send(conn, obj):
    raw = pickle.dumps(obj)
    conn.sendall(struct.pack('<q', len(raw)) + raw)


def start():
    """Fork the server. To be called before anything was computed."""
    global _server
    if _server is not None:
        return
    import worlds  # noqa
    harness.chaosmagpy()
    parent = os.getpid()
    a, b = socket.socketpair()
    address = tempfile.mktemp(prefix='verif-history-')
    pid = os.fork()
    if pid:
        b.close()
        if a.recv(1) != b'x':
            raise harness.HarnessError('no server for the histories')
        a.close()
        _server = (pid, address, parent)
        import atexit
        atexit.register(stop)
        return
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)   # ends with the parent
        a.close()
        if os.getppid() != parent:
            os._exit(1)
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
        s = socket.socket(socket.AF_UNIX)
        s.bind(address)
        s.listen(64)
        b.sendall(b'x')
        b.close()
        while True:
            conn, _ = s.accept()
            if os.fork() == 0:
                s.close()
                _answer(conn)
                os._exit(0)
            conn.close()
    finally:
        os._exit(1)


def stop():
    global _server
    if _server is not None and _server[2] == os.getpid():
        try:
            os.kill(_server[0], signal.SIGKILL)
            os.waitpid(_server[0], 0)
        except OSError:
            pass
        try:
            os.unlink(_server[1])
        except OSError:
            pass
        _server = None


def ask(world, case, which):
    """List of the results of the history (which = None), or the result of
    one of its calls in a pristine process."""
    if _server is None:
        start()
    with socket.socket(socket.AF_UNIX) as conn:
        conn.settimeout(SECONDS + 30)
        conn.connect(_server[1])
        _send(conn, (world, case, which))
        try:
            kind, out = _recv(conn)
        except EOFError:
            raise Violation('the process ended without a result')
    if kind == 'stuck':
        raise Violation(f'no result after {SECONDS} s')
    if kind == 'error':
        raise harness.HarnessError(out)
    return out


def _answer(conn):
    import traceback
    import worlds

    def stuck(*args):
        _send(conn, ('stuck', None))
        os._exit(0)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    signal.signal(signal.SIGALRM, stuck)
    signal.alarm(SECONDS)
    try:
        world, case, which = _recv(conn)
        harness.reset_config()
        with harness.quiet(), harness.scratch():
            if case.get('threads'):
                import schedule
                out = schedule.threads(find(world), case) if which is None \
                    else perform(find(world), case, which)
            elif 'fault' in case:
                import schedule
                out = schedule.fault(find(world), case, which)
            else:
                out = perform(find(world), case, which)
        _send(conn, ('ok', out))
    except BaseException:
        _send(conn, ('error', traceback.format_exc()))


# ----------------------------------------------------- the surroundings

def surroundings():
    """What no call changes: the configuration, the working directory, the
    settings of NumPy and the random numbers."""
    cp = harness.chaosmagpy()
    state = np.random.get_state()
    return dict(
        configuration={k: np.array(v).tolist() if isinstance(v, np.ndarray)
                       else v for k, v in cp.basicConfig.items()},
        directory=os.getcwd(), errors=np.geterr(),
        printing={k: str(v) for k, v in np.get_printoptions().items()},
        random=(state[0], hash(state[1].tobytes()), state[2:]))


def changed(before):
    after = surroundings()
    for k, v in before.items():
        if after[k] != v:
            return f'{k} changed from {v!s:.200} to {after[k]!s:.200}'
    return None


# ---------------------------------------------------------- one history

def series(a):
    """A column of a table, whose rows have any numbers."""
    import pandas as pd
    if a.ndim != 1:
        return a
    return pd.Series(a, index=np.argsort(np.sin(1. + np.arange(a.size))))


class Mine(np.ndarray):
    pass


# the same numbers in another kind of array
FORMS = dict(
    object=lambda a: a.astype(object), list=lambda a: a.tolist(),
    longdouble=lambda a: a.astype(np.longdouble) if a.dtype.kind == 'f'
    else a,
    masked=np.ma.array, subclass=lambda a: a.view(Mine), series=series)


# calls that refuse them (loudly)
REFUSE = dict(
    object=['geodetic: basevectors_gg', 'spectra: degrees',
            'time: is_leap_year', 'time: mjd2000 dates'],
    list=['bspline: from_bspline', 'design: design_matrix', 'frames: base',
          # two vectors in a list are two angles
          'frames: basevectors', 'frames: transform_points',
          'frames: transform_vectors', 'induction: q_response',
          'induction: q_response_1D',
          'rotation: rotate_gauss', 'shc: save', 'spectra: degrees',
          'sphere: center_azimuth', 'sphere: local_time',
          'splines: colloc_matrix', 'splines: pp_from_bspline',
          'splines: synth_from_pp', 'synthesis: synth_values', 'text: load'],
    series=['frames: base', 'induction: q_response_1D',
            'rotation: rotate_gauss', 'splines: augment_breaks'])


def usual(x):
    """The numbers of the result as plain arrays."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            try:
                return np.array(x.tolist(), float)
            except (ValueError, TypeError):
                return np.array(x)
        return np.array(x)
    if type(x).__name__ == 'Series':
        return usual(x.to_numpy())
    if isinstance(x, (tuple, list)):
        return [usual(y) for y in x]
    if isinstance(x, dict):
        return {k: usual(v) for k, v in x.items()}
    return x


class Env:
    """Arrays for the calls of a history: the same numbers again are the same
    array, other numbers of the same shape are written into it."""

    def __init__(self, salt, shared, form=None):
        self.salt = salt
        self.form = form
        self.shared = shared
        self.pool = {}

    def own(self, key, values):
        """An array that belongs to the caller, who uses it again."""
        values = np.asarray(values)
        if self.form:
            return FORMS[self.form](values.copy())
        if not self.shared or values.ndim == 0:
            return values.copy()
        if self.shared == 'values':     # never written to by the caller
            return self.pool.setdefault(
                (values.shape, values.dtype.str, values.tobytes()),
                values.copy())
        a = self.pool.setdefault((key, values.shape, values.dtype.str),
                                 np.array(values))
        if not np.array_equal(a, values, equal_nan=a.dtype.kind == 'f'):
            a[...] = values
        return a

    SHAPES = 4
    VARIANTS = 7

    def vals(self, key, variant, shape, lo, hi):
        """Numbers within lo and hi, in variants that are easily confused."""
        x = gen.spread(self.salt + sum(map(ord, key)), (6,), lo, hi)
        if variant == 1:        # one number is another
            x[3] = lo + .37*(hi - lo)
        elif variant == 2:      # another order
            x[1:5] = x[4:0:-1]
        elif variant == 3:      # all others
            x = gen.spread(self.salt + 77 + sum(map(ord, key)), (6,), lo, hi)
        elif variant == 4:      # almost the same
            x = x + np.where(x < .5*(lo + hi), 1, -1)*1e-7*(hi - lo)
        elif variant == 5:      # whole numbers, if there are enough
            w = np.where(np.floor(x) < lo, np.ceil(x), np.floor(x))
            x = w if hi - lo > 4. else x
        elif variant == 6:      # all the same
            x = np.full(6, x[0])
        x = [x, x[:5], x.reshape((2, 3)), x[3]][shape]
        return self.own(key, x)


def find(name):
    """The world of this name; 'a+b' is made of the worlds a and b."""
    import worlds
    if '+' not in name:
        return worlds.WORLDS[name]
    parts = {p: worlds.WORLDS[p] for p in name.split('+')}

    def setup(cp, env):
        return {p: w['setup'](cp, env) if 'setup' in w else None
                for p, w in parts.items()}

    def inner(fn, p):
        return lambda cp, env, obj, **args: fn(cp, env, obj[p], **args)
    calls = {}
    for p, w in parts.items():
        for c, (fn, args) in w['calls'].items():
            c = f'!{p}/{c[1:]}' if c.startswith('!') else f'{p}/{c}'
            calls[c] = inner(fn, p), args
    return dict(calls=calls, setup=setup, views=any(
        w.get('views') for w in parts.values()))


def perform(world, case, which=None):
    cp = harness.chaosmagpy()
    env = Env(case['salt'], which is None, case.get('form')
              if which is None else None)
    obj = world['setup'](cp, env) if 'setup' in world else None
    out, kept = [], []
    for k, step in enumerate(case['steps']):
        name, args = step['call'], step['args']
        if which is not None and k != which and not name.startswith('!'):
            continue
        fn = world['calls'][name][0]
        before = None if name.startswith('!') else surroundings()
        try:
            raw = fn(cp, env, obj, **args)
            res = ('value', plain(usual(raw) if case.get('form')
                                  else raw))
        except Exception as err:
            raw, res = None, ('error', type(err).__name__ + ': ' + str(err))
        state = before and changed(before)
        if state:
            raw, res = None, ('state', state)
        if which is not None:
            if k == which:
                return res
            continue
        out.append(res)
        if step.get('keep'):
            kept.append((k, raw, res))
        elif not world.get('views'):   # results belong to the caller
            for x in arrays(raw):
                if x.flags.writeable and x.dtype.kind in 'fc':
                    x[...] = -7.
    late = [(k, differs(('value', plain(raw)), res)) for k, raw, res in kept
            if res[0] == 'value']
    return out, late


def arrays(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (tuple, list)):
        return [a for y in x for a in arrays(y)]
    if isinstance(x, dict):
        return [a for y in x.values() for a in arrays(y)]
    return []


def plain(x, depth=0):
    """The result in numbers and words."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return [plain(y, depth + 1) for y in x.ravel()]
        if x.dtype.kind in 'mM':
            return ('date', x.astype(x.dtype.kind + '8[ns]').astype(int))
        return np.array(x)
    if isinstance(x, np.generic):
        return plain(np.asarray(x))
    if isinstance(x, (bool, int, float, complex)):
        return np.asarray(x)
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [plain(v, depth + 1) for v in x]
    if x is None or isinstance(x, (str, bytes)):
        return x
    if hasattr(x, 'columns') and hasattr(x, 'index'):
        return dict(index=plain(np.asarray(x.index)), columns={
            str(c): plain(np.asarray(x[c])) for c in x.columns})
    if depth < 4 and hasattr(x, '__dict__'):
        return {k: plain(v, depth + 1) for k, v in vars(x).items()
                if not k.startswith('_') and k != 'timestamp'}
    return str(type(x))


def differs(a, b, tol=1e-10, what='result'):
    """None, or a description of how a differs from b."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return f'{what}: shape {a.shape}, expected {b.shape}'
        if a.dtype.kind in 'iufc' and b.dtype.kind in 'iufc':
            if a.size == 0:
                return None
            with np.errstate(all='ignore'):
                fin = np.abs(b[np.isfinite(b)])
                scale = fin.max() if fin.size else 0.
                ok = (a == b) | (np.isnan(a) & np.isnan(b))
                ok |= np.abs(a - b) <= tol*scale
            if ok.all():
                return None
            i = tuple(int(j) for j in np.argwhere(~ok)[0])
            return (f'{what}: at {i} {a[i]!r}, expected {b[i]!r}; '
                    f'{np.sum(~ok)} of {ok.size} differ')
        return None if np.array_equal(a, b) else f'{what}: other values'
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return f'{what}: {sorted(a)}, expected {sorted(b)}'
        for k in b:
            d = differs(a[k], b[k], tol, f'{what} {k}')
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f'{what}: {len(a)} parts, expected {len(b)}'
        for i, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, tol, f'{what}[{i}]' if len(b) > 1 else what)
            if d:
                return d
        return None
    if type(a) is not type(b):
        return f'{what}: {type(a).__name__}, expected {type(b).__name__}'
    return None if a == b else f'{what}: {a!r:.80}, expected {b!r:.80}'


# ----------------------------------------------------------------- facet

def facet(prop, count, name='history', mix=False):
    import worlds
    names = [w for w in sorted(worlds.WORLDS)
             if mix or prop in worlds.WORLDS[w]['of']]
    assert names, prop

    def strategy(st):
        @st.composite
        def make(draw):
            w = draw(st.sampled_from(names))
            if mix:
                w = '+'.join(draw(st.lists(st.sampled_from(names), min_size=2,
                                           max_size=3, unique=True)))
            calls = find(w)['calls']
            real = sorted(c for c in calls if not c.startswith('!'))
            outer = sorted(c for c in calls if c.startswith('!'))

            def fresh(c):
                return dict(call=c, args={
                    k: draw(st.integers(0, n - 1))
                    for k, n in sorted(calls[c][1].items())})
            steps = [fresh(draw(st.sampled_from(real)))]
            n = draw(st.integers(1, 8 if mix else 5))
            while n > 0:
                n -= 1
                last = [s for s in steps if s['call'] in real]
                # the call before, or another one
                last = last[-1] if draw(st.integers(0, 2)) else \
                    draw(st.sampled_from(last))
                how = draw(st.integers(0, 13 if mix else 9))
                if how < 5 and calls[last['call']][1]:
                    k = draw(st.sampled_from(sorted(
                        calls[last['call']][1])))
                    steps.append(dict(call=last['call'], args=dict(
                        last['args'], **{k: draw(st.integers(
                            0, calls[last['call']][1][k] - 1))})))
                elif how < 8 and outer:
                    again = [s for s in steps if s['call'] in outer]
                    if again and draw(st.booleans()):
                        # a change once more, in one respect another one
                        s = draw(st.sampled_from(again))
                        s = dict(call=s['call'], args=dict(s['args']))
                        if s['args']:
                            k = draw(st.sampled_from(sorted(s['args'])))
                            s['args'][k] = draw(st.integers(
                                0, calls[s['call']][1][k] - 1))
                        steps.append(s)
                    else:
                        steps.append(fresh(draw(st.sampled_from(outer))))
                    steps.append(dict(call=last['call'],
                                      args=dict(last['args'])))
                elif how == 8:
                    steps.append(dict(call=last['call'],
                                      args=dict(last['args'])))
                else:
                    steps.append(fresh(draw(st.sampled_from(real))))
            for s in steps:
                s['keep'] = draw(st.booleans())
            return dict(world=w, salt=draw(gen.salt(st)), steps=steps)
        return make()

    def check(case, ctx):
        steps = case['steps']
        real = [k for k, s in enumerate(steps)
                if not s['call'].startswith('!')]
        ctx.nontrivial(len(real) > 1 and any(
            steps[k] != steps[real[0]] for k in range(len(steps))))
        ctx.label(*[s['call'] if mix else f'{case["world"]}: {s["call"]}'
                    for s in steps])
        out, late = ask(case['world'], case, None)
        for k in real:
            if out[k][0] == 'state':
                raise Violation(f'call {k} ({steps[k]["call"]} '
                                f'{steps[k]["args"]}): {out[k][1]}')
            want = ask(case['world'], case, k)
            text = f'call {k} ({steps[k]["call"]} {steps[k]["args"]}) after ' \
                   f'{[s["call"] for s in steps[:k]]}'
            if out[k][0] != want[0]:
                raise Violation(f'{text}: {out[k][1]!s:.120} instead of '
                                f'{want[1]!s:.120}')
            d = None if want[0] == 'error' else differs(out[k], want)
            if want[0] == 'error':
                ctx.label('refused')
                a, b = (x[1].split(':')[0] for x in (out[k], want))
                d = None if a == b else f'{a} instead of {b}'
            if d:
                raise Violation(f'{text}, compared with a process of its '
                                f'own: {d}')
        for k, d in late:
            if d:
                raise Violation(f'result of call {k} ({steps[k]["call"]}) '
                                f'after later calls: {d}')

    return Facet(name, strategy, check, count, 20*count)


def forms(count):
    """The same call with the numbers in another kind of array."""
    import worlds
    names = sorted(worlds.WORLDS)

    def strategy(st):
        @st.composite
        def make(draw):
            w = draw(st.sampled_from(names))
            calls = worlds.WORLDS[w]['calls']
            form = draw(st.sampled_from(sorted(FORMS)))
            c = draw(st.sampled_from(sorted(
                c for c in calls if not c.startswith('!')
                and f'{w}: {c}' not in REFUSE.get(form, ())) or ['']))
            args = {k: draw(st.integers(0, n - 1))
                    for k, n in sorted(calls[c][1].items())} if c else {}
            return dict(world=w, salt=draw(gen.salt(st)), form=form, steps=[
                dict(call=c, args=args, keep=True)] if c else [])
        return make()

    def check(case, ctx):
        ctx.nontrivial(len(case['steps']) > 0)
        if not case['steps']:
            return
        name = f'{case["world"]}: {case["steps"][0]["call"]}'
        ctx.label(case['form'], name)
        out, _ = ask(case['world'], case, None)
        want = ask(case['world'], case, 0)
        if want[0] == 'error':
            return
        text = f'{name} {case["steps"][0]["args"]} with {case["form"]}'
        if out[0][0] == 'error':    # refused, loudly
            ctx.label(f'refused: {case["form"]}')
            return
        d = differs(out[0], want)
        if d:
            raise Violation(f'{text}: {d}')

    return Facet('forms', strategy, check, count, 20*count)
