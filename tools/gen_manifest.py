#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of built checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
# id -> (technique, level, level_note)
CHECKS = {
    'C01': (T + 'seeded histories of compositions with failing events and '
            'exceptions injected at arbitrary lines of the accountants, replayed '
            'against a reference ledger', 'exploration',
            'seeded search over histories and fault points, not exhaustive'),
    'C02': (T + 'seeded splits, reorderings, nestings, failed attempts and '
            'interleaved queries of the same operations, compared with one '
            'direct composition', 'exploration',
            'seeded search over histories, not exhaustive'),
    'C03': (T + 'seeded histories of builder calls with injected failures and '
            'held snapshots, checked against a list-of-operations model',
            'exploration', 'seeded search over histories, not exhaustive'),
    'C04': (T + 'simulated process lifetimes with a simulated disk (torn and lost '
            'tails, bit flips), crashes inside operations and recovery',
            'exploration', 'seeded search over crash points, not exhaustive'),
}
exec(open(os.path.join(HERE, 'tools', 'manifest_more.py')).read()
     if os.path.exists(os.path.join(HERE, 'tools', 'manifest_more.py')) else '')

INPUT_ONLY = ('a pure numerical or distributional fact about one call; no '
              'schedule, clock, I/O, failure or history takes part in it, so '
              'there is nothing for a simulator to control')
NA = {
    'N01': INPUT_ONLY, 'N02': INPUT_ONLY, 'N04': INPUT_ONLY,
    'N06': 'Kotlin, Maven or Bazel, Beam Java and Spark are not installed and cannot be '
           'fetched, so these pipelines cannot be built here; Privacy on Beam, their Go '
           'counterpart, is covered by P01-P04',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for q in props:
  i = q['id']
  if i in CHECKS:
    t, level, note = CHECKS[i]
    cmd = f'python3 run.py {i}'
    m['checks'].append({
        'property': i, 'quick_cmd': cmd + ' --tier quick',
        'thorough_cmd': cmd + ' --tier thorough',
        'technique': t, 'level': level, 'level_note': note})
  else:
    m['not_applicable'].append(
        {'property': i, 'reason': NA.get(i, 'the simulation for it is not built yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
