"""Adds a repaired defect to known_findings.json: fixed.py PROPERTY "commit subject part" "what failed"."""
import json
import subprocess
import sys

prop, sub, what = sys.argv[1:]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout
hits = [l.split()[0] for l in log.splitlines() if sub in l]
assert len(hits) == 1, hits
with open('/verif/known_findings.json') as f:
    d = json.load(f)
d['fixed'].append('fixed: property=%s %s %s' % (prop, hits[0], what))
with open('/verif/known_findings.json', 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
