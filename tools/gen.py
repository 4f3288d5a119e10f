#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import props
from mc import registry

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
  for p in props.PROPS:
    d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
    assert len(d['title']) <= 80, d['id']
    f.write(json.dumps(d) + '\n')
checks = []
na = []
for p in props.PROPS:
  if 'na' in p:
    na.append({'property': p['id'], 'reason': p['na']})
    continue
  if p['id'] not in registry.CHECKS:
    print('no check yet for', p['id'])
    na.append({'property': p['id'], 'reason': 'check under construction'})
    continue
  checks.append({
      'property': p['id'],
      'quick_cmd': f'/opt/venv/bin/python run.py {p["id"]} quick',
      'thorough_cmd': f'/opt/venv/bin/python run.py {p["id"]} thorough',
      'technique': p['technique'],
      'level': 'model_checking',
      'level_note': p['note'],
  })
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python tools/setup_check.py',
    'hooks': {'guard': 'KOLADATA_VERIF (no hook was needed; /repo carries no instrumentation)',
              'enable': 'nothing to enable: the checks drive the unmodified sources', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check explores the code of the current /repo tree; see DESIGN.md.',
}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
