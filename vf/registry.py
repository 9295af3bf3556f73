#!/usr/bin/env python3
"""registry.py: the single source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'code contracts on the real C sources, discharged function by function with CBMC/goto-instrument (SAT, cvc5 back ends)'
P = []
def prop(id, title, statement, over, quant, why, files, mech, note=None, technique=T, level='proof', na=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, technique=technique, level=level, na=na, observe=observe or []))
exec(open(os.path.join(V, 'vf', 'properties_text.py')).read())
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
M = {'version': 1, 'setup_cmd': 'python3 vf/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: contracts and loop invariants live in /verif/harness and /verif/props and are attached to verbatim copies of the current sources on every run.'}
for p in P:
    assert len(p['title']) <= 80, p['title']
    if p['na']: M['not_applicable'].append({'property': p['id'], 'reason': p['na']}); continue
    assert os.path.exists(os.path.join(V, 'props', p['id'] + '.py')), p['id']
    M['checks'].append({'property': p['id'], 'quick_cmd': 'python3 vf/check.py ' + p['id'], 'thorough_cmd': 'python3 vf/check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note'] or ''})
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(M['checks']), 'checks', len(M['not_applicable']), 'not applicable')
