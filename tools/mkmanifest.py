#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
assert all(c in ids for c in CHECKS), [c for c in CHECKS if c not in ids]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique=c.get('technique', 'property-based testing: stateful/structured generation with rapid against an explicit oracle, with shrinking'),
                           level='exploration',
                           level_note=c.get('note', 'Seeded random search over generated cases with an explicit oracle; no exhaustiveness. Trusts the Go toolchain, the standard library and rapid; time is virtual where synctest is used.')))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, 'The check of this property is not built yet.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         hooks=dict(guard='verif', enable='No hooks are needed: harness files are added with go test -overlay; /repo has no guarded code.', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
