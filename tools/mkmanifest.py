#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/table.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
from table import TABLE  # noqa: E402

ids = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
assert sorted(ids) == sorted(TABLE), (set(ids) ^ set(TABLE))
checks = []
for i in ids:
    e = TABLE[i]
    checks.append({
        'property': i,
        'quick_cmd': './check %s' % i,
        'thorough_cmd': './check %s thorough' % i,
        'technique': e.get('technique', 'TLA+ specification executed by TLC as oracle: traces recorded from the real code are '
                                        'replayed as behaviours of the specification, inputs generated from it'),
        'level': e['level'],
        'level_note': e.get('note', 'TLC evaluates the specification on every recorded call; what is not in the generated, swept, '
                                    'mutated and exhaustively enumerated small inputs of the run is not covered. Trusts the driver '
                                    '(driver/), which only calls the public API and prints its results, and TLC.'),
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: the driver uses the public headers only. Known findings: known-findings.txt.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
