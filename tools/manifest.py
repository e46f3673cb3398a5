#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in checks/ and properties.jsonl."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {}
exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i + '.py')):
        checks.append(dict(property=i, quick_cmd=f'python3 checks/{i}.py quick', thorough_cmd=f'python3 checks/{i}.py thorough',
            technique=T[i][0], level='model_checking', level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
