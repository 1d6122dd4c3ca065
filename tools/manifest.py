#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PROPS:
        na.append(dict(property=i, reason='no check built yet'))
        continue
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i,
                       thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       technique=c.get('technique', 'property-based testing against a reference model (own tape-based generator, shrinking, forked workers, ASan/UBSan)'),
                       level=c.get('level', 'exploration'),
                       level_note=c.get('note', c['rule'])))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
