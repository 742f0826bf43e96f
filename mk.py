#!/usr/bin/env python3
# Generates properties.jsonl and MANIFEST.json from proptext.py and props.py.
import json, os
import proptext, props
V = os.path.dirname(os.path.abspath(__file__))
P, M, NA = [], [], []
for p in proptext.TEXT:
    P.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
              'quantifier': {'over': p['over'], 'text': p['quant']},
              'why_tests_cant': p['why'],
              'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                          'observe_at': p.get('observe', []), 'hook_needed': None}})
    assert len(p['title']) <= 80, p['id']
    if 'na' in p:
        NA.append({'property': p['id'], 'reason': p['na']})
        continue
    assert p['id'] in props.PROPS, p['id']
    M.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
              'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
              'technique': 'symbolic execution of the compiled C++ (LLVM IR) with SMT (z3/cvc5)',
              'level': 'model_checking', 'level_note': p['note']})
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': M, 'not_applicable': NA,
           'notes': 'No hooks in /repo are used; only fix: commits were added there.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(M), 'checks', len(NA), 'not applicable')
