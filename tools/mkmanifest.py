#!/usr/bin/env python3
"""writes MANIFEST.json from the CHECKS table and the lists below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
from run import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
m = dict(version=1, setup_cmd='python3 sa/setup.py', checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        mod, fn, level, trusted, technique, note = CHECKS[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 sa/run.py ' + p,
                                thorough_cmd='python3 sa/run.py %s --tier thorough' % p,
                                technique=technique, level=level, level_note=note))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
