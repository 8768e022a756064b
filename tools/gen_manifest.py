#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the check modules."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 \
                and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(HERE, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'],
                   'reason': 'check not built yet (work in progress)'})
        continue
    c = consts(path)
    checks.append({
        'property': p['id'],
        'quick_cmd': './check %s --tier quick' % p['id'],
        'thorough_cmd': './check %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': c['TECHNIQUE'],
        'level': 'model_checking',
        'level_note': c['LEVEL_NOTE'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': na,
     'notes': 'All checks run the real code of /repo/src/node in place; no '
              'hooks in /repo. Known findings and repairs: '
              'KNOWN_FINDINGS.txt. Design and bounds: DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
