#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from checks.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TODO = 'check not built yet'
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        mods = ', '.join(dict.fromkeys([m['module'] for m in c.get('mc', [])] + [t['module'] for t in c['trace']]))
        checks.append(dict(
            property=i, quick_cmd='python3 run_check.py ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 run_check.py ' + i,
            evidence_file='evidence/%s.json' % i,
            technique='TLA+ specification model-checked with TLC, and TLC validation of traces recorded from the real code against it (%s)' % mods,
            level='model_checking',
            level_note='Exhaustive within the small constants of the model; conformance of the implementation is established for the recorded '
                       'executions only (driver drivers/%s, seeded by VERIF_SEED). Trusts TLC, the recording driver and the C++ toolchain. '
                       'Bounds are in DESIGN.md and the evidence file.' % c['driver'][0]))
    else:
        na.append(dict(property=i, reason=TODO))
m = dict(version=1, setup_cmd='python3 run_check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo. Known findings and repaired defects: known-findings.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
