#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
have = subprocess.run([os.path.join(root, 'harness/target/release/vh'), 'list'], capture_output=True, text=True, check=True).stdout.split()
TECH = json.load(open(os.path.join(root, 'tools/technique.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i not in have:
        na.append({'property': i, 'reason': 'No check has been built yet.'})
        continue
    t = TECH[i]
    checks.append({
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': t[0],
        'level': 'exploration',
        'level_note': t[1],
    })
m = {'version': 1, 'setup_cmd': './check --build', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are one Rust binary (harness/, package vh) that links /repo by path and drives proptest generators; '
              'no hooks in /repo are needed. VERIF_CASES and VERIF_WORKERS override the number of cases and worker processes.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
