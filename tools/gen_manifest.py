#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property that has a module in mc/props."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    path = os.path.join(V, 'mc/props', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='no check has been built for it yet'))
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append(dict(
        property=p['id'],
        quick_cmd='bin/check %s --tier quick' % p['id'],
        thorough_cmd='bin/check %s --tier thorough' % p['id'],
        technique=consts.get('TECHNIQUE', 'bounded exhaustive exploration of the real code (every input, configuration and history of a finite space) against a reference model'),
        level=consts['LEVEL'],
        level_note=consts.get('NOTE', 'Every case of the stated finite space was executed on the real code; nothing outside of the bounds is claimed. Assumes: ') + '; '.join(consts.get('ASSUMPTIONS', []))))
m = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
         notes='All checks explore scratch builds of /repo\'s current working tree; see DESIGN.md. Genuine defects found on the way are repaired by fix: commits in /repo and listed in known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
