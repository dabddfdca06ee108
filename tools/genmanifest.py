#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claims:
        t, n = claims[i]
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
                           technique=t, level='other', level_note=n))
    else:
        na.append(dict(property=i, reason=na_reasons.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=na,
         notes='Static analysis only: checker/ is an analyser of the SSA form of /repo, run in all the build configurations (tags buddy and debug). See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
