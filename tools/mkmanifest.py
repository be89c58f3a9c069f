#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json')) if os.path.exists(V + '/tools/not_applicable.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/lib/checks/%s.py' % i.lower()) and i not in NA:
        m = importlib.import_module('lib.checks.' + i.lower())
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=m.TECHNIQUE, level=m.LEVEL, level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'the check is still being built')))
json.dump(dict(version=1, setup_cmd='python3 bin/setup.py', checks=checks, not_applicable=na,
               notes='TLA+ specifications in specs/, checked with TLC; conformance by replaying TLC-generated call sequences and validating recorded sessions. No hooks in /repo.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
