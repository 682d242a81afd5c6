#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts present."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
NA = {}
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    f = os.path.join(HERE, 'contracts', pid.lower() + '.py')
    b = os.path.join(HERE, 'rt', pid.lower() + '.py')
    if not os.path.exists(f) or not os.path.exists(b):
        na.append(dict(property=pid, reason=NA.get(pid, 'not built yet')))
        continue
    tree = ast.parse(open(f).read())
    meta = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in ('LEVEL', 'NOTE'):
            meta[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(
        property=pid, quick_cmd=f"python3-vt check.py {pid}",
        thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {pid} --tier thorough",
        technique="contract-based deductive verification of the real source (symbolic execution "
                  "with function contracts and loop invariants, obligations discharged by a ring "
                  "normaliser and z3; runtime contract battery for replay)",
        level=meta.get('LEVEL', 'proof'),
        level_note=meta.get('NOTE', '') or
        "All listed obligations hold for all inputs and sizes in exact real arithmetic; numpy/"
        "scipy functions are trusted through contracts; rounding is only covered by the bounded "
        "runtime battery."))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy'", checks=checks,
         not_applicable=na,
         notes="No hooks: /repo's source is loaded and instrumented in memory on every run.")
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
