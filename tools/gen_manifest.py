#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import plan
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in plan.CHECKS and i in plan.TECH:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'technique': plan.TECH[i], 'level': 'exploration', 'level_note': plan.NOTE[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
m['notes'] = 'No hooks in /repo are needed: the monitors replace the ThreadSanitizer runtime, the futex system call, clocks and allocation at link time.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
