"""Writes labels.json, the assertions each check must reach, from the
evidence of a quick run on the unchanged tree: python3 tools/labels.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
d = os.path.join(V, 'evidence')
for f in sorted(os.listdir(d)):
    if f.endswith('.json'):
        with open(os.path.join(d, f)) as h:
            e = json.load(h)
        if e.get('tier') == 'quick':
            out[e['property']] = sorted(e['coverage']['assertions'])
with open(os.path.join(V, 'labels.json'), 'w') as f:
    json.dump(out, f, indent=1, sort_keys=True)
    f.write('\n')
