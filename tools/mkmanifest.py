"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'harness'), os.path.join(ROOT, 'harness', 'checks')]
NA = {}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    if not os.path.exists(os.path.join(ROOT, 'harness', 'checks', pid.lower() + '.py')):
        na.append({'property': pid, 'reason': NA.get(pid, 'its check is not built yet')})
        continue
    c = importlib.import_module(pid.lower()).CHECK
    checks.append({
        'property': pid, 'quick_cmd': './check ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough ./check ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': getattr(c, 'TECHNIQUE', 'property-based testing (Hypothesis) against a reference model'),
        'level': 'exploration',
        'level_note': 'Randomised search over generated cases, not exhaustive; the oracle is written independently of the code. ' + (
            'Assumes: ' + '; '.join(c.ASSUMPTIONS) + '.' if c.ASSUMPTIONS else 'See DESIGN.md for the bounds.')})
m = {'version': 1, 'setup_cmd': '/opt/veriftools/pyvenv/bin/python harness/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check builds /repo\'s working tree in .build/ (cached by content) and drives it on MPI worker pools; see DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
