"""Calls in several threads, interleaved line by line after a generated
schedule, and calls that are interrupted at a generated line. The calls are the
ones of worlds.py; lib/history.py supplies the processes."""
import ast
import os
import sys
import threading
import harness
from harness import Facet, Violation
import gen
import history

WRITES = ('save', 'convert', 'to_shc')     # calls that write a file


def usable(names):
    return [c for c in names if not c.startswith('!')
            and not any(w in c for w in WRITES)]


def package():
    return os.path.dirname(os.path.abspath(harness.chaosmagpy().__file__))


# --------------------------------------------------------------- threads

class Baton:
    """Only the thread that holds the baton runs; it is handed on after as
    many lines as the schedule says."""

    def __init__(self, n, schedule):
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.turn, self.pos, self.ticks, self.switches = 0, 0, 0, 0
        self.schedule = schedule
        self.left = schedule[0]

    def _next(self):
        self.pos += 1
        self.left = self.schedule[self.pos % len(self.schedule)]
        after = [i for i in self.alive if i > self.turn] + self.alive
        if after:
            self.switches += after[0] != self.turn
            self.turn = after[0]
        self.cond.notify_all()

    def _wait(self, i):
        seen = self.ticks
        while self.turn != i:
            if not self.cond.wait(.5) and self.ticks == seen:
                self.turn = i       # the other one is blocked, by a lock
            seen = self.ticks

    def start(self, i):
        with self.cond:
            self._wait(i)

    def step(self, i):
        with self.cond:
            self.ticks += 1
            if self.turn == i:
                self.left -= 1
                if self.left <= 0:
                    self._next()
            self._wait(i)

    def done(self, i):
        with self.cond:
            self.ticks += 1
            self.alive.remove(i)
            if self.turn == i:
                self._next()


def threads(world, case):
    cp = harness.chaosmagpy()
    env = history.Env(case['salt'], 'values')
    obj = world['setup'](cp, env) if 'setup' in world else None
    steps = case['steps']
    for s in steps:
        if s['call'].startswith('!'):
            world['calls'][s['call']][0](cp, env, obj, **s['args'])
    steps = [s for s in steps if not s['call'].startswith('!')]
    baton = Baton(len(steps), case['threads'])
    before = history.surroundings()
    out = [None]*len(steps)
    files = package() + os.sep

    def run(i):
        def line(frame, event, arg):
            if event == 'line':
                baton.step(i)
            return line

        def enter(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(files) \
                else None
        s = steps[i]
        baton.start(i)
        sys.settrace(enter)
        try:
            raw = world['calls'][s['call']][0](cp, env, obj, **s['args'])
            out[i] = raw
        except Exception as err:
            out[i] = err
        finally:
            sys.settrace(None)
            baton.done(i)
    ts = [threading.Thread(target=run, args=(i,), daemon=True)
          for i in range(len(steps))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return ([value(x) for x in out], baton.switches,
            history.changed(before))


def value(raw):
    if isinstance(raw, Exception):
        return 'error', type(raw).__name__ + ': ' + str(raw)
    return 'value', history.plain(raw)


# ---------------------------------------------------------- interruptions

class Interrupted(BaseException):
    pass


EXC = [KeyboardInterrupt, MemoryError, Interrupted]
_lines = {}


def risky(file):
    """Lines on which something is computed, other than the ones that clean
    up after an exception."""
    if file not in _lines:
        with open(file) as f:
            tree = ast.parse(f.read())
        out = set()

        def visit(node):
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Return,
                                 ast.Expr, ast.For)):
                what = node.iter if isinstance(node, ast.For) else node
                if any(isinstance(x, (ast.Call, ast.BinOp))
                       for x in ast.walk(what)):
                    out.add(node.lineno)
            for name, sub in ast.iter_fields(node):
                if name in ('finalbody', 'handlers'):
                    continue
                for x in sub if isinstance(sub, list) else [sub]:
                    if isinstance(x, ast.AST):
                        visit(x)
        visit(tree)
        _lines[file] = out
    return _lines[file]


def interrupted(fn, at, exc):
    """Carry out fn until the line number at (counted in the order they
    are executed); returns the numbers of each line, by function, and whether
    the line was reached."""
    files = package() + os.sep
    count = [0]
    hit = []
    where = {}

    def line(frame, event, arg):
        if event == 'line' and frame.f_lineno in risky(
                frame.f_code.co_filename):
            count[0] += 1
            code = frame.f_code
            where.setdefault((code.co_filename, code.co_firstlineno), {}
                             ).setdefault(frame.f_lineno, []).append(count[0])
            if count[0] == at:
                hit.append(frame.f_lineno)
                sys.settrace(None)
                raise exc('interrupted')
        return line

    def enter(frame, event, arg):
        name = frame.f_code.co_filename
        if name.startswith(files) and not name.endswith('config_utils.py'):
            return line
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        fn()
    except (Exception, KeyboardInterrupt, Interrupted):
        pass
    finally:
        sys.settrace(old)
    return [list(x.values()) for x in where.values()], bool(hit)


def pick(functions, line, at):
    """Number of one of the lines: either each line alike, or each function
    alike, since lines of short functions are rare otherwise."""
    if not functions:
        return 0
    if line < .5:
        lines, line = sum(functions, []), 2*line
    else:
        line = (2*line - 1)*.9999*len(functions)
        lines, line = functions[int(line)], line % 1
    n = lines[int(line*len(lines)*.9999)]
    return n[int(at*len(n)*.9999)]


def fault(world, case, which):
    """which = None: the whole history; ('count', k): number of lines of
    call k in a pristine process; k: its result in a pristine process."""
    cp = harness.chaosmagpy()
    steps = case['steps']
    if isinstance(which, int):
        return history.perform(world, case, which)
    env = history.Env(case['salt'], 'values')
    obj = world['setup'](cp, env) if 'setup' in world else None
    out = []
    for k, s in enumerate(steps):
        if which is not None and k != which[1] \
                and not s['call'].startswith('!'):
            continue

        def fn():
            return world['calls'][s['call']][0](cp, env, obj, **s['args'])
        if which is not None and k == which[1]:
            return interrupted(fn, -1, MemoryError)[0]
        if s.get('at'):
            before = history.surroundings()
            hits, state = 0, None
            for at in s['at']:
                hits += interrupted(fn, at, EXC[case['fault'] % len(EXC)])[1]
                state = state or history.changed(before)
            out.append(('interrupted', hits > 0, state))
        else:
            try:
                out.append(value(fn()))
            except Exception as err:
                out.append(value(err))
    return out


# ----------------------------------------------------------------- facets

def steps_of(draw, st, name, most):
    """Calls that are alike, after a few changes of the world."""
    calls = history.find(name)['calls']
    real = sorted(usable(calls))
    outer = sorted(c for c in calls if c.startswith('!'))

    def fresh(c):
        return dict(call=c, args={k: draw(st.integers(0, n - 1))
                                  for k, n in sorted(calls[c][1].items())})
    steps = [fresh(draw(st.sampled_from(outer)))
             for _ in range(draw(st.integers(0, 2)))] if outer else []
    steps.append(fresh(draw(st.sampled_from(real))))
    for _ in range(draw(st.integers(1, most))):
        last = steps[-1]
        how = draw(st.integers(0, 4))
        if how < 3 and last['args']:
            args = dict(last['args'])
            for k in draw(st.lists(st.sampled_from(sorted(args)), min_size=1,
                                   max_size=3)):
                args[k] = draw(st.integers(
                    0, calls[last['call']][1][k] - 1))
            steps.append(dict(call=last['call'], args=args))
        elif how == 3:
            steps.append(dict(call=last['call'], args=dict(last['args'])))
        else:
            steps.append(fresh(draw(st.sampled_from(real))))
    return steps


def compare(text, got, want):
    if got[0] != want[0]:
        raise Violation(f'{text}: {got[1]!s:.120} instead of '
                        f'{want[1]!s:.120}')
    if want[0] == 'error':
        a, b = (x[1].split(':')[0] for x in (got, want))
        d = None if a == b else f'{a} instead of {b}'
    else:
        d = history.differs(got, want)
    if d:
        raise Violation(f'{text}: {d}')


def thread_facet(name, worlds_, count):
    def strategy(st):
        @st.composite
        def make(draw):
            w = draw(st.sampled_from(worlds_))
            if len(worlds_) > 1 and draw(st.integers(0, 3)) == 0:
                w = '+'.join(sorted(draw(st.lists(
                    st.sampled_from(worlds_), min_size=2, max_size=2,
                    unique=True))))
            steps = steps_of(draw, st, w, 2)
            for s in steps:         # no two threads write the same file
                if 'save' in s['args']:
                    s['args']['save'] = 0
            return dict(world=w, salt=draw(gen.salt(st)), steps=steps,
                        threads=draw(st.lists(st.one_of(
                            st.integers(1, 6), st.integers(1, 60)),
                            min_size=1, max_size=12)))
        return make()

    def check(case, ctx):
        steps = case['steps']
        real = [k for k, s in enumerate(steps)
                if not s['call'].startswith('!')]
        out, switches, state = history.ask(case['world'], case, None)
        if state:
            raise Violation(f'{[steps[j]["call"] for j in real]} in '
                            f'threads: {state}')
        ctx.nontrivial(switches > 2)
        ctx.label(*[f'{case["world"]}: {steps[k]["call"]}' for k in real]
                  if '+' not in case['world'] else ['two worlds'])
        for k, got in zip(real, out):
            want = history.ask(case['world'], case, k)
            compare(f'call {k} ({steps[k]["call"]} {steps[k]["args"]}) in a '
                    f'thread, beside {[steps[j]["call"] for j in real]}, '
                    'compared with a process of its own', got, want)

    return Facet(name, strategy, check, count, 20*count)


def fault_facet(name, worlds_, count):
    def strategy(st):
        @st.composite
        def make(draw):
            w = draw(st.sampled_from(worlds_))
            steps = steps_of(draw, st, w, 3)
            real = [s for s in steps if not s['call'].startswith('!')]
            for k, s in enumerate(real[:-1]):
                if k == 0 or draw(st.integers(0, 2)):
                    # one after the other
                    s['at'] = draw(st.lists(st.tuples(
                        gen.f(st, 0., 1.), gen.f(st, 0., 1.)).map(list),
                        min_size=1, max_size=5))
            # a call alike, afterwards
            if draw(st.booleans()):
                real[-1].update(call=real[-2]['call'],
                                args=dict(real[-2]['args']))
            return dict(world=w, salt=draw(gen.salt(st)), steps=steps,
                        fault=draw(st.integers(0, 2)))
        return make()

    def check(case, ctx):
        steps = [dict(s) for s in case['steps']]
        real = [k for k, s in enumerate(steps)
                if not s['call'].startswith('!')]
        for k in real:
            if steps[k].get('at'):
                # a line, and how many times it is reached before
                lines = history.ask(case['world'], case, ('count', k))
                steps[k]['at'] = [pick(lines, line, at)
                                  for line, at in steps[k]['at']]
            else:
                steps[k]['at'] = []
        full = dict(case, steps=steps)
        out = history.ask(case['world'], full, None)
        ctx.nontrivial(any(out[k][:2] == ('interrupted', True)
                           for k in real))
        ctx.label(*[f'{case["world"]}: {steps[k]["call"]}' for k in real
                    if steps[k]['at']])
        for k in real:
            if steps[k]['at']:
                if out[k][2]:
                    raise Violation(
                        f'interrupted call {k} ({steps[k]["call"]} '
                        f'{steps[k]["args"]}), line {steps[k]["at"]}: '
                        f'{out[k][2]}')
                continue
            want = history.ask(case['world'], full, k)
            compare(f'call {k} ({steps[k]["call"]} {steps[k]["args"]}) after '
                    f'an interruption at line {[s.get("at") for s in steps]}, '
                    'compared with a process of its own', out[k], want)

    return Facet(name, strategy, check, count, 20*count)


GROUPS = dict(
    fields=['synthesis', 'poles', 'design'],
    algebra=['splines', 'spectra', 'bspline'],
    points=['sphere', 'geodetic', 'sun', 'time'],
    frames=['frames'],
    fourier=['rotation', 'fourier', 'induction'],
    files=['shc', 'index', 'mat', 'text'],
    models=['model', 'outside', 'field', 'parts', 'euler'],
    chaos=['external', 'sum'])


def facets(make, count):
    import worlds
    assert sorted(sum(GROUPS.values(), [])) == sorted(worlds.WORLDS)
    return [make(g, w, count) for g, w in GROUPS.items()]
