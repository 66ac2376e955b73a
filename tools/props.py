"""Writes properties.jsonl and MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), note='', state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=['metatab/' + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe),
                               hook_needed=None), note=note))


exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        p = {k: v for k, v in p.items() if k != 'note'}
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')

man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [],
    'not_applicable': NA,
    'notes': 'All checks: bounded symbolic execution of the real source (package sx), instrumented from /repo on every run, '
             'decided by Z3; see DESIGN.md. known_findings.json lists repaired defects and known findings.',
}
for p in P:
    if p['id'] in {n['property'] for n in NA}:
        continue
    if not os.path.exists(os.path.join(HERE, 'harness', p['id'].lower() + '.py')):
        print('no harness', p['id'])
        continue
    man['checks'].append({
        'property': p['id'],
        'quick_cmd': './check.sh {} --tier quick'.format(p['id']),
        'thorough_cmd': './check.sh {} --tier thorough'.format(p['id']),
        'evidence_file': 'evidence/{}.json'.format(p['id']),
        'technique': 'bounded symbolic execution of the instrumented source with Z3 (QF_BV), witnesses replayed on the real code',
        'level': 'model_checking',
        'level_note': p['note'] or 'Decides every path of the real code within the bounds listed per job in the evidence (string '
                      'lengths, alphabet, number of rows or operations); nothing is claimed beyond them. Trusts Z3, the models '
                      'of str/dict/set/re/csv (compared with CPython by sx.selftest and on every path by replay).',
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
