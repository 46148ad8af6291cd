#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks/*.py and properties.jsonl (committed; run by hand after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import check
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = json.load(open(V + '/lib/not_applicable.json'))
checks, nas = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/checks/{i}.py') and i not in na.get('_withdrawn', []):
        sp = check.load_spec(i)
        checks.append(dict(property=i, quick_cmd=f'python3 lib/check.py {i}', thorough_cmd=f'python3 lib/check.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json', technique=sp.get('technique', 'symbolic execution of the LLVM IR of the real sources, every assertion decided by SMT (z3/cvc5)'),
            level=sp['level'], level_note='Holds for every value within the bounds: ' + sp['bounds'] + '. Outside: ' + sp.get('outside', '') + '. Trusts clang, the executor (witnesses are replayed natively) and the SMT solvers.'))
    else:
        nas.append(dict(property=i, reason=na.get(i, 'not encoded yet')))
json.dump(dict(version=1, setup_cmd='bash engine/build.sh', checks=checks, not_applicable=nas,
    notes='See DESIGN.md. No hooks are needed in /repo: the harnesses compile its headers and sources directly.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
