"""usage: catches.py [--run] [--jobs N] [ID ...]

Runs the check of the property of each change in seeded/ against a scratch
copy with that change (--run; results are kept in /tmp/w/catches.json) and
writes the table at the end of DESIGN.md.  A development tool."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STORE = '/tmp/w/catches.json'
MARK = '## Planted changes (seeded/)'


def judge(name):
    d = os.path.join(VERIF, 'seeded', name)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    copy = f'/tmp/w/catch_{name}_{os.getpid()}'
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', copy], check=True)
    try:
        r = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')],
                           cwd=copy, capture_output=True, text=True)
        if r.returncode:
            return name, dict(property=prop, verdict='patch does not apply')
        r = subprocess.run([PY, os.path.join(VERIF, 'run.py'), prop], cwd=VERIF,
                           capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=copy,
                                    VERIF_SEED='1'))
        facets = sorted({x.split()[1].rstrip(':')
                         for x in r.stdout.splitlines()
                         if x.startswith('  facet')})
        return name, dict(property=prop, verdict=r.returncode, facets=facets)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    jobs = 3
    if '--jobs' in sys.argv:
        jobs = int(args.pop(0))
    names = sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    store = json.load(open(STORE)) if os.path.exists(STORE) else {}
    store = {k: v for k, v in store.items() if k in names}
    if '--run' in sys.argv:
        with cf.ThreadPoolExecutor(jobs) as pool:
            for name, r in pool.map(judge, args or names):
                store[name] = r
                print(name, r, flush=True)
                json.dump(store, open(STORE, 'w'), indent=1)
    text = open(os.path.join(VERIF, 'DESIGN.md')).read()
    head = text[:text.index(MARK) + len(MARK)]
    lines = ['', '', 'Each row: the change, what it needs to show, and the '
             'facets of the check of its', 'property that report it '
             '(VERIF_SEED=1, quick). "When planted": reported',
             'by this check then, not run again since.', '',
             '| change | needs | caught by |', '|---|---|---|']
    for name in names:
        meta = json.load(open(os.path.join(VERIF, 'seeded', name,
                                           'meta.json')))
        r = store.get(name)
        by = f'{meta["property"]} (when planted)'
        if r:
            by = (f'{r["property"]}: ' + ', '.join(r['facets'])
                  if r['verdict'] == 1 else f'missed ({r["verdict"]})')
        needs = ' '.join(str(meta['needs']).split()).replace('|', '/')
        lines.append(f'| {name} | {needs} | {by} |')
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write(
        head + '\n'.join(lines) + '\n')


main()
