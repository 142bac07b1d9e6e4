#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from contracts/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from contracts.registry import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    P = PROPS.get(i)
    if P and P.get('units') and i not in NOT_APPLICABLE:
        checks.append(dict(property=i, quick_cmd='python3-vt -m vc.check %s' % i, thorough_cmd='VERIF_TIER=thorough python3-vt -m vc.check %s' % i,
                           technique=P['technique'], level=P.get('level', 'proof'), level_note=P['note']))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'not yet under contract: planned, see DESIGN.md')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes='Each check rebuilds from /repo\'s working tree: AST by clang++-19, obligations by /verif/vc, replay drivers by clang++-19 with ASan/UBSan. No hooks in /repo.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
