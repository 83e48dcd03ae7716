"""Property-based testing harness shared by every check in /verif/checks.

A check module defines PROPERTY, RULE, ASSUMPTIONS and FACETS.  A facet is a
pair (strategy, check): the Hypothesis strategy draws a plain JSON-able dict
("case"), and check(case, ctx) exercises the real code of /repo against an
oracle, raising Violation if the property is broken.  As the case is plain
data, a replay file is just that data: `replay.py FILE` feeds it to the same
check function without Hypothesis.
"""
import os
import sys

for _k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_k, '1')
os.environ['MPLBACKEND'] = 'Agg'
# nothing of the package depends on where the computer stands
os.environ['TZ'] = 'NST3:30NDT,M3.2.0,M11.1.0'
sys.dont_write_bytecode = True

import contextlib  # noqa: E402
import hashlib  # noqa: E402
import io  # noqa: E402
import json  # noqa: E402
import shutil  # noqa: E402
import signal  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

time.tzset()

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'

SHRINK_SECONDS = 20.
CASE_SECONDS = 100.      # CPU time; ordinary cases take milliseconds


class Violation(Exception):
    """The property does not hold for the case under test."""


class HarnessError(Exception):
    """The machinery itself failed: never reported as a violation."""


# ---------------------------------------------------------------- bootstrap

_cp = None


def chaosmagpy():
    """Import the package from /repo's working tree (never from a copy)."""
    global _cp
    if _cp is None:
        import numpy, scipy, pandas, h5py, hdf5storage  # noqa
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        # ignore byte code caches, so that only the source tree counts
        old = sys.pycache_prefix
        sys.pycache_prefix = os.path.join(tempfile.gettempdir(),
                                          'verif-no-pycache')
        try:
            import chaosmagpy as cp
            import chaosmagpy.plot_utils  # noqa
        finally:
            sys.pycache_prefix = old
        if not os.path.realpath(cp.__file__).startswith(
                os.path.realpath(REPO) + os.sep):
            raise HarnessError('chaosmagpy imported from ' + cp.__file__)
        _cp = cp
        _snapshot_config(cp)
    return _cp


_config_snapshot = None


def _snapshot_config(cp):
    global _config_snapshot
    import numpy as np
    _config_snapshot = {
        k: (v.copy() if isinstance(v, np.ndarray) else v)
        for k, v in dict(cp.basicConfig).items()}
    for k, v in getattr(cp.basicConfig, 'defaults', {}).items():
        if isinstance(v[0], np.ndarray):
            _default_arrays[k] = v[0].copy()


_default_arrays = {}


def reset_config():
    """Bring the global configuration back to its state after the import."""
    import numpy as np
    cfg = chaosmagpy().basicConfig
    for k in list(dict.keys(cfg)):
        if k not in _config_snapshot:
            dict.__delitem__(cfg, k)
    for k, v in _default_arrays.items():
        cfg.defaults[k][0][...] = v
    for k, v in _config_snapshot.items():
        dict.__setitem__(cfg, k, v.copy() if isinstance(v, np.ndarray) else v)


def hypothesis():
    if HYP not in sys.path:
        sys.path.append(HYP)
    import hypothesis as h
    return h


# ------------------------------------------------------- numeric utilities

def fill(salt, *shape):
    """Deterministic pseudo-random array in [-1, 1) derived from an integer
    that the library drew: no random number generator of our own."""
    import numpy as np
    n = 1
    for s in shape:
        n *= s
    with np.errstate(over='ignore'):
        z = (np.arange(1, n + 1, dtype=np.uint64)
             + np.uint64((salt * 1000003 + 17) % (1 << 62)))
        z = z * np.uint64(0x9E3779B97F4A7C15)
        z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
        z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
        z = z ^ (z >> np.uint64(31))
    out = (z >> np.uint64(11)).astype(np.float64) / float(1 << 53)
    return (2. * out - 1.).reshape(shape)


def as_array(x, what, shape=None, dtype=float):
    """The result of the code under test as an array, judged for shape."""
    import numpy as np
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('error')
            out = np.asarray(x, dtype=dtype)
    except Exception as err:
        raise Violation(f'{what}: result is not numeric: {type(x).__name__} '
                        f'({err})')
    if shape is not None and out.shape != tuple(shape):
        raise Violation(f'{what}: shape {out.shape}, expected {tuple(shape)}')
    return out


def agree(actual, expected, tol, what, scale=None, equal_nan=False):
    """|actual - expected| <= tol * scale elementwise; same shape; finite."""
    import numpy as np
    expected = np.asarray(expected)
    actual = as_array(actual, what, expected.shape,
                      dtype=complex if np.iscomplexobj(expected) else float)
    if scale is None:
        scale = np.maximum(1., np.abs(expected))
    bound = tol * np.broadcast_to(np.asarray(scale, dtype=float),
                                  expected.shape)
    with np.errstate(invalid='ignore'):
        ok = np.abs(actual - expected) <= bound
        ok |= (actual == expected)
    if equal_nan:
        ok |= np.isnan(actual) & np.isnan(expected)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        i = tuple(int(j) for j in bad[0])
        raise Violation(
            f'{what}: {len(bad)} of {expected.size} values differ; at {i} '
            f'got {actual[i]!r}, expected {expected[i]!r} '
            f'(allowed {bound[i]:.3g})')


def require(cond, what):
    if not cond:
        raise Violation(what)


def rejects(what, fn, *args, exc=Exception, **kwargs):
    """The request is invalid: the code must raise, not hand out a value."""
    try:
        with quiet():
            out = fn(*args, **kwargs)
    except exc:
        return
    except Exception as err:
        raise Violation(f'{what}: raised {type(err).__name__}, '
                        f'documented is {exc}')
    raise Violation(f'{what}: accepted, returned '
                    f'{str(type(out).__name__)} {str(out)[:120]}')


def same_bytes(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return False
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            return all(same_bytes(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return a.tobytes() == b.tobytes()
    if isinstance(a, dict):
        return (isinstance(b, dict) and list(a) == list(b)
                and all(same_bytes(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return (type(a) is type(b) and len(a) == len(b)
                and all(same_bytes(x, y) for x, y in zip(a, b)))
    return a == b or (a != a and b != b)


@contextlib.contextmanager
def quiet():
    """Silence warnings and prints of the code under test."""
    import numpy as np
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()):
            # nothing depends on how the user has arrays printed
            with np.errstate(all='ignore'), np.printoptions(
                    precision=3, threshold=5, edgeitems=1, suppress=True):
                yield


def used(path, salt):
    """Every third time, a longer file of this name is there already."""
    if salt % 3 == 0:
        with open(path, 'w') as f:
            f.write('# an older file\n' + '7.5 8.5 9.5\n'*(salt % 5000))


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif-')
    cwd = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ facets

class Facet:
    def __init__(self, name, strategy, check, quick, thorough=None,
                 shards=None):
        self.name = name
        self.strategy = strategy      # callable: st -> strategy
        self.check = check            # callable: (case, ctx)
        self.quick = quick
        self.thorough = 5*thorough if thorough else 120*quick
        self.shards = shards

    def count(self, tier, scale=1):
        if tier != 'quick':
            return self.thorough
        return self.quick*scale

class Ctx:
    """Collects what a case was: labels, and whether it was non-trivial."""

    def __init__(self):
        self.labels = set()
        self.is_nontrivial = False

    def label(self, *names):
        self.labels.update(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True


def digest(case):
    s = json.dumps(case, sort_keys=True)
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def _in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    for f in traceback.extract_tb(tb):
        if os.path.realpath(f.filename).startswith(root):
            return True
    return False


class _Stuck(BaseException):
    pass


def _stuck(*args):
    raise _Stuck


@contextlib.contextmanager
def cpu_limit():
    """Turn a request that does not end into a violation."""
    try:
        old = signal.signal(signal.SIGVTALRM, _stuck)
    except ValueError:  # not the main thread
        yield
        return
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_SECONDS)
    try:
        yield
    except _Stuck:
        raise Violation(f'no result after {CASE_SECONDS:.0f} s') from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0.)
        signal.signal(signal.SIGVTALRM, old)


def run_case(facet, case, ctx=None):
    """One evaluation. Violation if the property is broken."""
    ctx = ctx or Ctx()
    case = json.loads(json.dumps(case))  # nothing but plain data
    chaosmagpy()
    reset_config()
    try:
        with quiet(), cpu_limit():
            facet.check(case, ctx)
    except Violation:
        raise
    except Exception as err:
        if type(err).__module__.startswith('hypothesis'):
            raise
        if _in_repo(err.__traceback__):
            tb = traceback.extract_tb(err.__traceback__)
            where = [f for f in tb if os.path.realpath(
                f.filename).startswith(os.path.realpath(REPO))][-1]
            raise Violation(
                f'unexpected {type(err).__name__}: {err} (raised in '
                f'{os.path.basename(where.filename)}:{where.name})')
        if isinstance(err, (ArithmeticError, AssertionError, AttributeError,
                            LookupError, TypeError, ValueError)):
            # a result that the check cannot even take apart
            where = traceback.extract_tb(err.__traceback__)[-1]
            raise Violation(
                f'result of unexpected form: {type(err).__name__}: {err} '
                f'({os.path.basename(where.filename)}:{where.lineno})')
        raise
    finally:
        reset_config()
    return ctx


def run_shard(module_name, index, shard, nshards, tier, seed):
    """Run one shard of a facet in this process; returns a plain dict."""
    import importlib
    h = hypothesis()
    from hypothesis import strategies as st
    mod = importlib.import_module(module_name)
    facet = mod.FACETS[index]
    total = facet.count(tier, getattr(mod, 'SCALE', 1))
    n = total // nshards + (1 if shard < total % nshards else 0)
    res = dict(facet=facet.name, index=index, shard=shard, evaluations=0,
               digests=set(), labels={}, samples=[], fail=None, error=None,
               trivial_samples=[])
    if n == 0:
        return res
    t0 = time.time()
    state = dict(last=None, first=None, fails={})

    def body(case):
        dg = None
        if state['first'] is not None:
            dg = digest(case)
            if dg in state['fails']:
                state['last'] = (case, state['fails'][dg])
                raise Violation(state['fails'][dg])
            if time.time() - state['first'] > SHRINK_SECONDS:
                return
        ctx = Ctx()
        try:
            run_case(facet, case, ctx)
        except Violation as err:
            dg = dg or digest(case)
            if state['first'] is None:
                state['first'] = time.time()
            state['fails'][dg] = str(err)
            state['last'] = (json.loads(json.dumps(case)), str(err))
            raise Violation(str(err)) from None
        if state['first'] is None:
            res['evaluations'] += 1
            for x in ctx.labels:
                res['labels'][x] = res['labels'].get(x, 0) + 1
            if ctx.is_nontrivial:
                res['digests'].add(dg or digest(case))
                if len(res['samples']) < 2:
                    res['samples'].append(case)
            elif len(res['trivial_samples']) < 1:
                res['trivial_samples'].append(case)

    key = f'{mod.PROPERTY}/{facet.name}/{shard}/{seed}'
    hseed = int(hashlib.sha256(key.encode()).hexdigest()[:15], 16)
    test = h.given(facet.strategy(st))(body)
    test = h.settings(
        max_examples=n, database=None, deadline=None,
        report_multiple_bugs=False, derandomize=False, print_blob=False,
        verbosity=h.Verbosity.quiet,
        phases=(h.Phase.generate, h.Phase.shrink),
        suppress_health_check=[h.HealthCheck.too_slow,
                               h.HealthCheck.data_too_large,
                               h.HealthCheck.large_base_example])(test)
    test = h.seed(hseed)(test)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            test()
    except Violation:
        res['fail'] = state['last']
    except BaseException as err:
        if isinstance(err, (KeyboardInterrupt, SystemExit)):
            raise
        if state['last'] is not None and (
                'Flaky' in type(err).__name__
                or isinstance(err, BaseExceptionGroup)):
            res['fail'] = state['last']
        else:
            res['error'] = traceback.format_exc()
    res['wall'] = time.time() - t0
    return res


def _task(args):
    try:
        return run_shard(*args)
    except BaseException:
        return dict(facet='?', index=args[1], shard=args[2], evaluations=0,
                    digests=set(), labels={}, samples=[], fail=None,
                    trivial_samples=[], error=traceback.format_exc(), wall=0)


def load_replay(path):
    with open(path) as f:
        return json.load(f)


def write_replay(prop, facet, case, message):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}_{facet}_{digest(case)}.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, facet=facet, case=case,
                       message=message), f, indent=1)
    return os.path.relpath(path, VERIF)


def known_findings(prop):
    """{(facet, digest-or-class): text} of findings listed for a property."""
    out = []
    path = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(path):
        with open(path) as f:
            for item in json.load(f):
                if item['property'] == prop and item['status'] == 'known':
                    out.append(item)
    return out


def main(module_name):
    import importlib
    import concurrent.futures as cf
    import multiprocessing as mp
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    only = [a for a in sys.argv[2:] if not a.startswith('--')]
    try:
        mod = importlib.import_module(module_name)
        chaosmagpy()
        hypothesis()
    except Exception:
        traceback.print_exc()
        return 2
    prop = mod.PROPERTY
    if 'history' in sys.modules:    # before anything is computed
        sys.modules['history'].start()
    facets = {f.name: f for f in mod.FACETS}
    failures, errors = [], []

    # replays of repaired defects and of earlier counterexamples come first
    nregress = 0
    rdir = os.path.join(VERIF, 'regress')
    for name in sorted(os.listdir(rdir)) if os.path.isdir(rdir) else []:
        if not name.startswith(prop + '_'):
            continue
        item = load_replay(os.path.join(rdir, name))
        if only and item['facet'] not in only:
            continue
        nregress += 1
        try:
            run_case(facets[item['facet']], item['case'])
        except Violation as err:
            failures.append((item['facet'], item['case'], str(err)))
        except Exception:
            errors.append(traceback.format_exc())

    # findings recorded, not repaired: still failing?
    for item in known_findings(prop):
        try:
            run_case(facets[item['facet']], item['case'])
        except Violation:
            print(f"KNOWN-FINDING: property={prop} {item['what']}")
        except Exception:
            errors.append(traceback.format_exc())

    ncpu = os.cpu_count() or 8
    tasks = []
    for i, f in enumerate(mod.FACETS):
        if only and f.name not in only:
            continue
        ns = f.shards or min(8, max(
            1, f.count(tier, getattr(mod, 'SCALE', 1)) // 20))
        tasks += [(module_name, i, s, ns, tier, seed) for s in range(ns)]
    tasks.sort(key=lambda t: -t[2])
    results = []
    with cf.ProcessPoolExecutor(
            max_workers=min(ncpu, max(1, len(tasks))),
            mp_context=mp.get_context('fork')) as pool:
        try:
            for r in pool.map(_task, tasks):
                results.append(r)
        except Exception:
            errors.append(traceback.format_exc())

    per = {}
    for r in results:
        d = per.setdefault(r['facet'], dict(
            evaluations=0, digests=set(), labels={}, samples=[],
            trivial=[], wall=0.))
        d['evaluations'] += r['evaluations']
        d['digests'] |= r['digests']
        d['wall'] += r.get('wall', 0.)
        for k, v in r['labels'].items():
            d['labels'][k] = d['labels'].get(k, 0) + v
        d['samples'] += r['samples']
        d['trivial'] += r['trivial_samples']
        if r['error']:
            errors.append(f"facet {r['facet']}:\n{r['error']}")
    seen = {f for f, _, _ in failures}
    for r in results:
        if r['fail'] and r['facet'] not in seen:
            seen.add(r['facet'])
            failures.append((r['facet'], r['fail'][0], r['fail'][1]))

    samples = []
    for name, d in per.items():
        for s in sorted(d['samples'], key=lambda c: len(json.dumps(c)))[:2]:
            samples.append(dict(facet=name, case=s))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(d['evaluations'] for d in per.values()),
            distinct_nontrivial=sum(len(d['digests']) for d in per.values()),
            rule=mod.RULE,
            samples=samples,
            replays_rerun=nregress,
            facets={name: dict(
                evaluations=d['evaluations'],
                distinct_nontrivial=len(d['digests']),
                classes=dict(sorted(d['labels'].items())),
                cpu_s=round(d['wall'], 1)) for name, d in per.items()}),
        assumptions=list(mod.ASSUMPTIONS),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for facet, case, msg in failures:
        path = write_replay(prop, facet, case, msg)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  facet {facet}: {msg}')
    for e in errors:
        print('HARNESS ERROR', e, file=sys.stderr)
    c = evidence['coverage']
    print(f"{prop} {tier} seed={seed}: {c['evaluations']} cases, "
          f"{c['distinct_nontrivial']} distinct non-trivial, "
          f"{len(failures)} violations, {len(errors)} errors, "
          f"{evidence['wall_s']} s")
    if '--verbose' in sys.argv:
        for name, d in c['facets'].items():
            print('   ', name, json.dumps(d))
    if failures:
        return 1
    return 2 if errors else 0
