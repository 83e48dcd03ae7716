"""Writes properties.jsonl and MANIFEST.json from one list (run by hand)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def add(id, title, statement, quant, why, files, mech, technique, note,
        over=('inputs',), state=None, observe=None):
    assert len(title) <= 80, title
    a = dict(files=['chaosmagpy/' + f for f in files],
             mechanism=[dict(name=n, where='chaosmagpy/' + w)
                        for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where='chaosmagpy/' + w)
                      for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=quant),
                  why_tests_cant=why, anchors=a, technique=technique,
                  note=note))


exec(open(os.path.join(VERIF, 'tools', 'properties_src.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in (
            'id', 'title', 'statement', 'quantifier', 'why_tests_cant',
            'anchors')}) + '\n')

manifest = dict(
    version=1,
    setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path[:0] = "
              "['lib']; import harness; harness.chaosmagpy(); "
              "harness.hypothesis(); print('ok')\"",
    checks=[dict(
        property=p['id'],
        quick_cmd=f"/opt/venv/bin/python run.py {p['id'].lower()}",
        thorough_cmd=f"/opt/venv/bin/python run.py {p['id'].lower()} "
                     "--thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p['technique'], level='exploration',
        level_note=p['note']) for p in P],
    not_applicable=[],
    notes='Every check is a module of checks/ run by run.py with Hypothesis '
          '(generation and shrinking) against an explicit oracle. '
          'replay.py FILE reruns a replay file.')
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(P))
