#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'TLA+ specification checked with TLC; behaviours recorded from the library validated against it'
props = [json.loads(x) for x in open(VERIF + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': 'python3 tools/check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH,
        'level': 'model_checking',
        'level_note': 'Explicit-state model checking of the specification on small instances and of recorded '
                      'behaviours of the compiled library against it; scenarios are bounded and sampled, not '
                      'exhaustive over all inputs.',
    })
man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [],
       'notes': 'Run from /verif. The drivers are rebuilt from /repo whenever its sources change (build/ is a cache '
                'keyed by their content).'}
with open(VERIF + '/MANIFEST.json', 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
