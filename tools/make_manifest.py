"""Writes MANIFEST.json from properties.jsonl and the modules in vf/.

Usage: python3 tools/make_manifest.py"""
import ast
import json
import os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    path = os.path.join(here, 'vf', p['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    d = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append(dict(
        property=p['id'],
        quick_cmd='./check {} quick'.format(p['id']),
        thorough_cmd='./check {} thorough'.format(p['id']),
        evidence_file='evidence/{}.json'.format(p['id']),
        technique=d.get('TECHNIQUE', 'runtime monitoring: oracle over '
                        'recorded executions of the real code under '
                        'generated workloads'),
        level='exploration',
        level_note='Held on the executions of this run, see the evidence '
                   'file for what monitors observed. ' +
                   ' '.join(d.get('ASSUMPTIONS', []))))
json.dump(dict(
    version=1,
    setup_cmd='./check selftest setup',
    checks=checks, not_applicable=na,
    notes='Checks run the working tree of /repo in place (pure Python, '
          'nothing to build). No hooks: monitors attach at public '
          'interfaces. See DESIGN.md and known_findings.txt.'),
    open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
