"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(ROOT, 'checks', pid.lower() + '.py')):
        missing.append({'property': pid, 'reason': 'the check is not built yet'})
        continue
    c = importlib.import_module('checks.' + pid.lower())
    checks.append({
        'property': pid,
        'quick_cmd': 'python3-vt -m pbt.core %s' % pid,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt -m pbt.core %s' % pid,
        'technique': c.TECHNIQUE, 'level': c.LEVEL, 'level_note': c.NOTE})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks,
     'not_applicable': missing}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
