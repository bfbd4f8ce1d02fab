#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from catalogue.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from catalogue import P, NA
ROOT = os.path.dirname(HERE)
P.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        a['hook_needed'] = p['hook']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
        assert len(p['title']) <= 80, p['id']
naids = {i for i, _ in NA}
checks = []
for p in P:
    if p['id'] in naids:
        continue
    assert os.path.exists(os.path.join(ROOT, 'sim/props', p['id'].lower() + '.py')), p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
doc = {'version': 1, 'setup_cmd': 'python3 sim/build.py',
       'hooks': {'guard': 'LARCH_SIM_OVERLAY', 'enable': 'no hook is compiled into /repo: the checks build an instrumented copy of /repo\'s working tree under /verif/.build '
                 '(simulated OpenMP runtime, seeded numba pool, file-system interposer) and run it with this variable set', 'source_commits': []},
       'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
       'notes': 'every check: python3 check.py <ID> [--tier quick|thorough] [--replay FILE]; see DESIGN.md'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
