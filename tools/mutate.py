"""usage: mutate.py [--file NAME] [--func NAME] [--sample N] [--seed S]
                 [--out FILE] [--jobs N] [--cover]

Systematic small changes of the package (operators, constants, conditions,
statements, keyword arguments, copies) in scratch copies, each judged by the
facets that execute the changed line.  Writes one JSON line per change;
survivors show what the checks do not see (or changes without effect).  A
development tool: no check depends on it."""
import argparse
import ast
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(VERIF, 'lib'), os.path.join(VERIF, 'checks')]
import harness  # noqa: E402

PKG = '/repo/chaosmagpy'
FILES = ['chaos.py', 'config_utils.py', 'coordinate_utils.py',
         'data_utils.py', 'model_utils.py', 'plot_utils.py']
COVER = '/tmp/w/cover.json'
MODULES = sorted(f[:-3] for f in os.listdir(os.path.join(VERIF, 'checks'))
                 if f.startswith('c') and f[1:3].isdigit())


# ------------------------------------------------------------- mutations

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=',
       ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in',
       ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '+'}
NAMES = {'min': 'max', 'max': 'min', 'amax': 'amin', 'floor': 'ceil',
         'ceil': 'floor', 'sin': 'cos', 'cos': 'sin', 'radians': 'asarray',
         'degrees': 'asarray', 'abs': 'asarray', 'any': 'all', 'all': 'any',
         'zeros': 'ones', 'maximum': 'minimum', 'minimum': 'maximum',
         'real': 'imag', 'imag': 'real', 'round': 'floor',
         'logical_or': 'logical_and', 'logical_and': 'logical_or',
         'empty_like': 'zeros_like', 'append': 'setdiff1d'}


class Collector(ast.NodeVisitor):
    def __init__(self, text):
        self.lines = text.splitlines(keepends=True)
        self.starts = [0]
        for ln in self.lines:
            self.starts.append(self.starts[-1] + len(ln.encode()))
        self.data = text.encode()
        self.out = []
        self.func = []

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset,
                self.starts[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.data[a:b].decode()

    def add(self, node, new, what, span=None):
        a, b = span or self.span(node)
        self.out.append(dict(line=node.lineno, a=a, b=b, new=new,
                             old=self.data[a:b].decode(), what=what,
                             func='.'.join(self.func)))

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        body = node.body
        for d in node.args.defaults + [x for x in node.args.kw_defaults if x]:
            self.visit(d)
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.func.pop()

    def visit_ClassDef(self, node):
        self.func.append(node.name)
        for s in node.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.func.pop()

    def statement(self, node):
        if self.func:
            self.add(node, 'pass', 'statement removed')

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Subscript, ast.Attribute)):
            self.statement(node)
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.statement(node)
        a, b = self.span(node.target)
        c, d = self.span(node.value)
        op = BIN.get(type(node.op))
        if op:
            self.add(node, f' {op}= ', 'operator', (b, c))
        self.generic_visit(node)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.statement(node)
        self.generic_visit(node)

    def visit_Raise(self, node):
        self.statement(node)

    def visit_Assert(self, node):
        self.statement(node)
        self.generic_visit(node.test)

    def visit_If(self, node):
        self.add(node.test, f'not ({self.src(node.test)})', 'negated')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node.test, f'not ({self.src(node.test)})', 'negated')
        self.generic_visit(node)

    def visit_Compare(self, node):
        op = CMP.get(type(node.ops[0]))
        if op and type(node.ops[0]) not in (ast.Is, ast.IsNot):
            a = self.span(node.left)[1]
            b = self.span(node.comparators[0])[0]
            if self.data[a:b].strip() in (b'<', b'<=', b'>', b'>=', b'==',
                                          b'!=', b'in', b'not in'):
                self.add(node, f' {op} ', 'comparison', (a, b))
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for x, y in zip(node.values, node.values[1:]):
            a, b = self.span(x)[1], self.span(y)[0]
            gap = self.data[a:b].decode()
            new = (gap.replace('and', 'or') if isinstance(node.op, ast.And)
                   else gap.replace('or', 'and'))
            self.add(node, new, 'and/or', (a, b))
        self.generic_visit(node)

    def visit_BinOp(self, node):
        op = BIN.get(type(node.op))
        if op and not (isinstance(node.left, ast.Constant)
                       and isinstance(node.left.value, str)):
            a, b = self.span(node.left)[1], self.span(node.right)[0]
            gap = self.data[a:b].decode()
            old = gap.strip().strip('()').strip()
            if old and gap.count(old) == 1:
                self.add(node, gap.replace(old, op), 'operator', (a, b))
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.USub):
            self.add(node, f'({self.src(node.operand)})', 'sign')
        elif isinstance(node.op, ast.Not):
            self.add(node, f'({self.src(node.operand)})', 'not removed')
        self.generic_visit(node)

    def visit_Constant(self, node):
        v = node.value
        if v is True or v is False:
            self.add(node, str(not v), 'boolean')
        elif isinstance(v, int):
            self.add(node, f'{v + 1}', 'constant')
            if v > 0:
                self.add(node, f'{v - 1}', 'constant')
        elif isinstance(v, float):
            self.add(node, f'{v*1.01 if v else .01!r}', 'constant')
            if v:
                self.add(node, f'{v*(1 + 2e-5)!r}', 'constant slightly')
        elif isinstance(v, str) and v and '\n' not in v and self.func:
            self.add(node, repr(v + 'X'), 'string')

    def visit_JoinedStr(self, node):
        pass

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute):
            n = node.func.attr
            if n in NAMES:
                b = self.span(node.func)[1]
                self.add(node, NAMES[n], f'{n} -> {NAMES[n]}',
                         (b - len(n), b))
            if n in ('copy', 'ravel', 'flatten', 'transpose', 'lower',
                     'squeeze') and not node.args:
                self.add(node, self.src(node.func.value), f'{n} removed')
            if n in ('array', 'asarray', 'abs', 'atleast_1d', 'clip',
                     'nan_to_num', 'mod', 'unwrap') and node.args:
                self.add(node, f'({self.src(node.args[0])})', f'{n} removed')
        elif isinstance(node.func, ast.Name):
            n = node.func.id
            if n in ('int', 'float', 'bool', 'list', 'tuple', 'str', 'dict',
                     'sorted', 'abs') and len(node.args) == 1:
                self.add(node, f'({self.src(node.args[0])})', f'{n} removed')
            if n in NAMES:
                self.add(node.func, NAMES[n], f'{n} -> {NAMES[n]}')
            if n == 'range':
                for arg in node.args:
                    self.add(arg, f'{self.src(arg)} + 1', 'range')
                    self.add(arg, f'{self.src(arg)} - 1', 'range')
        for k in node.keywords:
            if k.arg and len(node.args) + len(node.keywords) > 1:
                a, b = self.span(k)
                # with the comma before or after
                c = a
                while self.data[c - 1:c] in b' \r\n\t':
                    c -= 1
                if self.data[c - 1:c] == b',':
                    self.add(node, '', f'keyword {k.arg} removed', (c - 1, b))
        self.generic_visit(node)

    def visit_Slice(self, node):
        for x in (node.lower, node.upper):
            if x is not None and not isinstance(x, ast.Constant):
                self.add(x, f'{self.src(x)} + 1', 'slice')
        self.generic_visit(node)

    def visit_Return(self, node):
        self.generic_visit(node)

    def visit_Continue(self, node):
        self.add(node, 'pass', 'continue removed')

    def visit_Break(self, node):
        self.add(node, 'pass', 'break removed')


def mutants(name):
    with open(os.path.join(PKG, name), newline='') as f:
        text = f.read()
    # \r\n lines: positions of ast count \n lines; keep the \r
    c = Collector(text)
    tree = ast.parse(text.encode())
    c.visit(tree)
    seen, out = set(), []
    for m in c.out:
        k = m['a'], m['b'], m['new']
        if k in seen or m['old'] == m['new']:
            continue
        seen.add(k)
        data = c.data[:m['a']] + m['new'].encode() + c.data[m['b']:]
        try:
            compile(data, name, 'exec')
        except Exception:
            continue
        m['file'] = name
        out.append(m)
    return out


def apply(m, folder):
    p = os.path.join(folder, 'chaosmagpy', m['file'])
    with open(os.path.join(PKG, m['file']), 'rb') as f:
        data = f.read()
    with open(p, 'wb') as f:
        f.write(data[:m['a']] + m['new'].encode() + data[m['b']:])


# --------------------------------------------------------------- coverage

def cover_task(args):
    mod, index, n = args
    harness.chaosmagpy()
    lines = set()
    mon = sys.monitoring
    mon.use_tool_id(3, 'cover')

    def line(code, no):
        if code.co_filename.startswith(PKG):
            lines.add((os.path.basename(code.co_filename), no))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    t0 = time.time()
    import importlib
    f = importlib.import_module(mod).FACETS[index]
    f.quick = n
    r = harness.run_shard(mod, index, 0, 1, 'quick', 1)
    mon.set_events(3, 0)
    mon.free_tool_id(3)
    return mod, index, r['facet'], sorted(lines), (time.time() - t0)/n, \
        r['fail'], r['error']


def cover(jobs):
    import importlib
    tasks = []
    for mod in MODULES:
        for i, f in enumerate(importlib.import_module(mod).FACETS):
            tasks.append((mod, i, min(f.quick, 60)))
    out = []
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as pool:
        for mod, i, name, lines, cost, fail, err in pool.imap_unordered(
                cover_task, tasks, chunksize=1):
            if fail or err:
                print('!!', mod, name, fail, err)
            out.append(dict(mod=mod, index=i, name=name, lines=lines,
                            cost=cost))
    with open(COVER, 'w') as f:
        json.dump(out, f)


# ----------------------------------------------------------------- judging

def judge(args):
    m, facets, seed, limit = args
    m = dict(m)
    folder = tempfile.mkdtemp(prefix='mut-', dir='/tmp/w')
    os.environ['TMPDIR'] = folder
    tempfile.tempdir = folder
    t0 = time.time()
    import importlib

    class Late(BaseException):
        pass

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, limit, 5)
    sys.stdout = sys.stderr = open(os.devnull, 'w')
    verdict = 'survived'
    try:
        shutil.copytree(PKG, os.path.join(folder, 'chaosmagpy'),
                        ignore=shutil.ignore_patterns('__pycache__'))
        apply(m, folder)
        harness.REPO = folder
        harness.SHRINK_SECONDS = -1.
        try:
            harness.chaosmagpy()
        except Late:
            raise
        except Exception as err:
            verdict = f'import: {err}'
            facets = []
        for mod, index, n in [(a, b, 30) for a, b in facets] + [
                (a, b, None) for a, b in facets[:14] if len(facets) < 99]:
            f = importlib.import_module(mod).FACETS[index]
            n, f.quick = f.quick, min(n or f.quick, f.quick)
            r = harness.run_shard(mod, index, 0, 1, 'quick', seed)
            f.quick = n
            if time.time() - t0 > limit:
                raise Late()
            if r['fail']:
                verdict = f'killed {mod} {r["facet"]}: {r["fail"][1][:150]}'
                break
            if r['error']:
                verdict = f'ERROR {mod} {r["facet"]}: {r["error"][-600:]}'
                break
    except Late:
        verdict = 'timeout'
    except BaseException as err:
        verdict = f'ERROR {type(err).__name__} {err}'
    signal.setitimer(signal.ITIMER_REAL, 0)
    os.chdir('/')
    shutil.rmtree(folder, ignore_errors=True)
    m['verdict'] = verdict
    m['s'] = round(time.time() - t0, 1)
    return m


def main():
    p = argparse.ArgumentParser()
    p.add_argument('--file')
    p.add_argument('--func')
    p.add_argument('--sample', type=int)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--out', default='/tmp/w/mutants.jsonl')
    p.add_argument('--jobs', type=int, default=8)
    p.add_argument('--cover', action='store_true')
    p.add_argument('--again', help='survivors of an earlier output')
    p.add_argument('--limit', type=int, default=400)
    a = p.parse_args()
    import numpy, scipy, pandas, h5py, hdf5storage, matplotlib  # noqa
    import scipy.io, scipy.interpolate, matplotlib.pyplot  # noqa
    harness.hypothesis()
    if a.cover or not os.path.exists(COVER):
        cover(a.jobs)
        if a.cover:
            return
    with open(COVER) as f:
        cov = json.load(f)
    done = set()
    if os.path.exists(a.out):
        with open(a.out) as f:
            done = {(r['file'], r['a'], r['b'], r['new'])
                    for r in map(json.loads, f)}
    ms = []
    if a.again:
        with open(a.again) as f:
            ms = [r for r in map(json.loads, f) if not r['verdict'].startswith(
                ('killed', 'import', 'timeout'))]
    else:
        for name in FILES:
            if not a.file or a.file == name:
                ms += mutants(name)
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done
          and (not a.func or a.func in m['func'])]
    print(len(ms), 'changes')
    if a.sample and a.sample < len(ms):
        ms = random.Random(a.seed).sample(ms, a.sample)
    lines = [(c, {tuple(x) for x in c['lines']}) for c in cov]
    import importlib
    quick = {(c['mod'], c['index']): importlib.import_module(
        c['mod']).FACETS[c['index']].quick for c in cov}

    tasks = []
    for m in ms:
        # cheap first; a multi-line statement counts by its first line
        fs = [c for c, ls in lines if (m['file'], m['line']) in ls]
        if not fs:
            near = [c for c, ls in lines if any(
                (m['file'], m['line'] - d) in ls for d in (1, 2, 3, -1))]
            fs = near or ([c for c, ls in lines] if not m['func'] else [])
        # facets that execute little else, and cheap ones, come first
        fs.sort(key=lambda c: c['cost']*len(c['lines']))
        m['nfacets'] = len(fs)
        tasks.append((m, [(c['mod'], c['index']) for c in fs], a.seed,
                      a.limit))
    n = 0
    with open(a.out, 'a') as f, mp.get_context('fork').Pool(
            a.jobs, maxtasksperchild=1) as pool:
        for m in pool.imap_unordered(judge, tasks, chunksize=1):
            n += 1
            f.write(json.dumps(m) + '\n')
            f.flush()
            if n % 50 == 0:
                print(n, 'of', len(tasks), flush=True)


if __name__ == '__main__':
    main()
