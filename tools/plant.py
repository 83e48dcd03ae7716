"""usage: plant.py SPECFILE [ID ...]

Turns descriptions of planted bugs into /verif/seeded/<id>/ and judges them:
the demonstration has to pass on /repo and to fail on a scratch copy with the
change, where the stable tests must pass.  Then the checks (of the property,
and with --all every check) are run against the copy.  A description is
bug(id, property, file, [(old, new), ...], demo, needs, breaks)."""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BUGS = []
PRELUDE = '''import os
import tempfile
import warnings
import numpy as np
warnings.simplefilter('ignore')
import chaosmagpy as cp
from chaosmagpy import chaos, config_utils, coordinate_utils, data_utils
from chaosmagpy import model_utils
cu, mu, du = coordinate_utils, model_utils, data_utils
os.chdir(tempfile.mkdtemp())

'''
SH = '''#!/bin/bash
# exit 0: the property holds in this example; run in the repository
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
export TMPDIR="$d" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def bug(id, prop, file, changes, demo, needs, breaks):
    if isinstance(file, str):
        changes = [(file,) + c for c in changes]
    BUGS.append(dict(id=id, prop=prop, changes=changes, demo=demo,
                     needs=needs, breaks=breaks))


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          env=dict(os.environ, **env))


def stable_ok(copy):
    import xml.etree.ElementTree as et
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    xml = os.path.join(copy, 'junit.xml')
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0')
    subprocess.run([PY, '-m', 'pytest', '-s', '-q', '-p', 'no:cacheprovider',
                    '-o', 'junit_family=xunit2', '--junitxml=' + xml,
                    '--continue-on-collection-errors', 'tests'], cwd=copy,
                   capture_output=True, text=True, env=env,
                   input='/repo/tests/data/CHAOS_test.mat\n'*100)
    ok = {f'{c.get("classname")}::{c.get("name")}'
          for c in et.parse(xml).iter('testcase') if not len(
              [x for x in c if x.tag in ('failure', 'error', 'skipped')])}
    return [x for x in base if x not in ok]


def plant(b, every, only_check):
    d = os.path.join(VERIF, 'seeded', b['id'])
    copy = f'/tmp/w/plant_{b["id"]}_{os.getpid()}'
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        for file, old, new in b['changes']:
            f = os.path.join(copy, 'chaosmagpy', file)
            s = open(f, newline='').read()
            crlf = '\r\n' in s
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return f'{s.count(old)} times in {file}: {old!r}'
            open(f, 'w', newline='').write(s.replace(old, new))
        if not only_check:
            os.makedirs(d, exist_ok=True)
            diff = subprocess.run(['git', 'diff'], cwd=copy,
                                  capture_output=True).stdout
            open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
            open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + b['demo'])
            open(os.path.join(d, 'demo.sh'), 'w').write(SH)
            json.dump(dict(property=b['prop'], needs=b['needs'],
                           what_it_breaks=b['breaks']),
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            r = run(['git', 'apply', '--check', os.path.join(d, 'patch.diff')],
                    '/repo')
            if r.returncode:
                return 'patch does not apply: ' + r.stderr
            demo = ['bash', os.path.join(d, 'demo.sh')]
            r = run(demo, '/repo')
            if r.returncode:
                return 'demo fails on /repo: ' + r.stderr[-600:]
            r = run(demo, copy)
            if r.returncode == 0:
                return 'demo passes with the change'
            what = (r.stderr.strip().splitlines() or ['?'])[-1]
            bad = stable_ok(copy)
            if bad:
                return f'stable tests fail: {bad}'
        else:
            what = ''
        checks = sorted(os.listdir(os.path.join(VERIF, 'checks')))
        own = b['prop'].lower()
        todo = [c[:3] for c in checks if every or c.startswith(own)]
        caught, quiet = [], []
        for c in todo:
            r = run([PY, '/verif/run.py', c], VERIF, VERIF_REPO=copy)
            tag = c.upper()
            if r.returncode == 1:
                facets = [x.split()[1] for x in r.stdout.splitlines()
                          if x.startswith('  facet')]
                caught.append(tag + ' (' + ', '.join(
                    x.rstrip(':') for x in facets) + ')')
            elif r.returncode:
                quiet.append(f'{tag} code {r.returncode} {r.stderr[-300:]}')
            else:
                quiet.append(tag)
        return dict(what=what, caught=caught,
                    own=any(x.startswith(b['prop']) for x in caught),
                    codes=[x for x in quiet if 'code' in x])
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    import concurrent.futures as cf
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    exec(compile(open(args[0]).read(), args[0], 'exec'), dict(bug=bug))
    todo = [b for b in BUGS if len(args) == 1 or b['id'] in args[1:]]
    every, only = '--all' in sys.argv, '--check' in sys.argv
    with cf.ThreadPoolExecutor(3) as pool:
        for b, r in zip(todo, pool.map(lambda b: plant(b, every, only),
                                       todo)):
            if isinstance(r, str):
                print(f'{b["id"]}: INVALID {r}', flush=True)
                if not only:
                    shutil.rmtree(os.path.join(VERIF, 'seeded', b['id']),
                                  ignore_errors=True)
            else:
                print(f'{b["id"]}: {"caught" if r["own"] else "MISSED"} '
                      f'{"; ".join(r["caught"])} {r["codes"] or ""} '
                      f'| {r["what"][:150]}', flush=True)


main()
