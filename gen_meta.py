"""Writes properties.jsonl and MANIFEST.json from meta/ (python3 gen_meta.py)."""
import json
import os

from meta import defs1, defs2  # pylint: disable=unused-import
from meta import claims

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
  for p in defs1.P:
    f.write(json.dumps(p) + '\n')
checks = []
na = []
for p in defs1.P:
  i = p['id']
  if i in claims.CLAIMS and os.path.exists(
      os.path.join(HERE, 'props', i.lower() + '.py')):
    tech, note = claims.CLAIMS[i]
    checks.append({
        'property': i,
        'quick_cmd': f'python3-vt check.py {i} quick',
        'thorough_cmd': f'python3-vt check.py {i} thorough',
        'technique': tech, 'level': 'other', 'level_note': note})
  else:
    na.append({'property': i, 'reason': claims.NOT_APPLICABLE.get(
        i, 'check not built yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump({'version': 1, 'setup_cmd': 'python3-vt check.py --selftest',
             'checks': checks, 'not_applicable': na,
             'notes': claims.NOTES}, f, indent=1)
print(len(checks), 'claimed;', len(na), 'not applicable')
