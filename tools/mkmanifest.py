#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from registry import CHECK, NA
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 tools/selftest.py',
  hooks=dict(guard='none', enable='no hooks were needed: harnesses use the public API, ROS topics and services of the unmodified sources through stand-in ROS headers in /verif/stubs'),
  checks=[], not_applicable=[],
  notes='Every check rebuilds its harnesses from /repo in a scratch directory under /tmp and removes it. See DESIGN.md. known_findings.txt lists recorded and fixed defects.')
for p in props:
    i = p['id']
    if i in CHECK:
        c = CHECK[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i, technique=c['technique'], level=c['level'], level_note=c['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet (work in progress)')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not claimed')
