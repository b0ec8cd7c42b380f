#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json.  A property is claimed when contracts/<id>.py exists and it has no 'na' reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contracts on the LLVM IR of the real functions, discharged by z3 (deductive, per function)'
P = []


def p(id, title, statement, over, quant, why, files, mech, note='', na=None, level='proof', tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na, level=level, tech=tech))


exec(open(os.path.join(V, 'tools', 'proplist.py')).read())

with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps({
            'id': x['id'], 'title': x['title'], 'statement': x['statement'],
            'quantifier': {'over': x['over'], 'text': x['quant']}, 'why_tests_cant': x['why'],
            'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']], 'hook_needed': None}}) + '\n')
checks, na = [], []
for x in P:
    if x['na'] or not os.path.exists(V + '/contracts/%s.py' % x['id'].lower()):
        na.append({'property': x['id'], 'reason': x['na'] or 'no contract machinery for it is in place yet'})
        continue
    checks.append({'property': x['id'], 'quick_cmd': './check.py %s quick' % x['id'], 'thorough_cmd': './check.py %s thorough' % x['id'],
                   'technique': x['tech'], 'level': x['level'], 'level_note': x['note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the contracts are attached to the unmodified functions from outside (IR extraction on every run).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
