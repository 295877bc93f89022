#!/usr/bin/env python3
"""Write MANIFEST.json from the registry."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from registry import PROPS, NOT_APPLICABLE, HOOKS
props = [json.loads(l) for l in open(os.path.join(HERE, '..', 'properties.jsonl'))]
ids = [p['id'] for p in props]
assert set(PROPS) | set(NOT_APPLICABLE) == set(ids) and not set(PROPS) & set(NOT_APPLICABLE), (set(ids) ^ (set(PROPS) | set(NOT_APPLICABLE)))
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd=f'python3 tools/check.py {i} quick', thorough_cmd=f'python3 tools/check.py {i} thorough',
        technique='symbolic execution of the compiled code with an SMT solver (z3), counterexamples replayed on V8', level='model_checking',
        level_note='Bounded: every input within the stated bounds, nothing outside them. Bounds: ' + '; '.join(p['bounds']) + '. Trusts rustc, wsym and z3, and the models named in the evidence\'s assumptions.'))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', hooks=HOOKS, checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
    notes='Each check rebuilds the executor, std and the harnesses from /repo\'s current tree; see DESIGN.md.'), open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
