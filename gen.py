#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the registry"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import props
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in props.PROPS + [dict(q, units=[], conf=[]) for q in getattr(props, 'EXTRA', [])]:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}}) + '\n')
checks = []
for p in props.PROPS:
    if p.get('na'): continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
        'technique': 'contract-based deductive verification of the real headers (clang IR, loop invariants, SMT); failing inputs by replay on the compiled code',
        'level': p.get('level', 'proof'),
        'level_note': p.get('note', 'Every obligation generated from the current source is discharged for all inputs within the stated preconditions. Trusted: the IR extraction, the irv generator, the ghost standard library, the SMT solvers.')})
man = {'version': 1, 'setup_cmd': 'python3-vt setup_check.py', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in props.PROPS if p.get('na')],
       'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the headers are verified unmodified', 'source_commits': []},
       'notes': 'Contracts live in /verif/specs, wrappers around the public API in /verif/units, the verification-condition generator in /verif/irv, replay/conformance programs in /verif/conf.'}
json.dump(man, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
