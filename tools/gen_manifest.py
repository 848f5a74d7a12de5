#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/bin')
from checks import CHECKS
NA = {
    'P01': 'Parsing of a configuration file is a pure function of one input file, evaluated once before any thread, timer, socket or fault exists: there is no schedule, fault or history to simulate.',
    'P02': 'SipHash is a pure function of key and bytes: there is no schedule, time, I/O or second party for the property to depend on.',
}
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i not in CHECKS: continue
    c = CHECKS[i]
    checks.append({
        'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
        'technique': 'deterministic simulation with fault injection: ' + c.get('technique', 'seeded search over schedules, workloads and faults of the real server in a simulated kernel'),
        'level': c.get('level', 'exploration'),
        'level_note': c.get('note', '') + ' Sampled exploration, not exhaustive; trusts the simulated kernel and the reference model in /verif/sim.',
    })
na = []
for p in props:
    if p['id'] in CHECKS: continue
    na.append({'property': p['id'], 'reason': NA.get(p['id'], 'No check for it is registered yet.')})
m = {
    'version': 1,
    'setup_cmd': 'python3 bin/check.py build',
    'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: every seam is at the libc and compiler-instrumentation boundary (see DESIGN.md).',
}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
