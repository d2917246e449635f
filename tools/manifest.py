"""Rewrites MANIFEST.json from the check modules (python3 tools/manifest.py)."""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
NA_REASON = {}
for p in props:
    f = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason=NA_REASON.get(p['id'], 'check not built yet')))
        continue
    d = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                d[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append(dict(
        property=p['id'],
        quick_cmd='bash check.sh %s quick' % p['id'],
        thorough_cmd='bash check.sh %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=d.get('TECHNIQUE', 'bounded exhaustive exploration of the real code against a reference model'),
        level=d['LEVEL'],
        level_note=d['RULE'] + ' Assumes: ' + '; '.join(d.get('ASSUMPTIONS', []))))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: all instrumentation is done from /verif by wrapping public objects.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'unclaimed')
