#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
  p = json.loads(line)
  i = p['id']
  cc = os.path.join(here, 'harness', 'p_%s.cc' % i.lower())
  py = os.path.join(here, 'harness', 'py', 'p_%s.py' % i.lower())
  if not (os.path.exists(cc) or os.path.exists(py)):
    na.append({'property': i, 'reason': TECH.get(i, {}).get('na', 'no check built yet')})
    continue
  t = TECH.get(i, {})
  checks.append({
      'property': i,
      'quick_cmd': 'python3 check.py ' + i,
      'thorough_cmd': 'python3 check.py ' + i,
      'technique': t.get('technique', 'property-based testing'),
      'level': 'exploration',
      'level_note': t.get('note', 'No counterexample among the generated cases; '
                                  'bounds and assumptions are in DESIGN.md.'),
  })
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check rebuilds incrementally from /repo with /verif/CMakeLists.txt. '
             'No hooks were added to /repo; its only commits are fixes (known-findings.txt).',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print(len(checks), 'checks', len(na), 'not claimed')
