#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and sim/plan.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import plan  # noqa

TECH = {
    'schedule': 'deterministic simulation: seeded schedules of simulated worker processes, reference-model oracle',
    'fault': 'deterministic simulation with fault injection: seeded schedules, kills and I/O faults at recorded operations',
}
NOTE = {}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in plan.COUNTS:
        checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s' % pid,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': plan.TECHNIQUE[pid], 'level': 'exploration', 'level_note': plan.NOTES[pid]})
    else:
        na.append({'property': pid, 'reason': plan.NOT_APPLICABLE.get(pid, 'check under construction')})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'No hooks are needed: every seam is a standard-library attribute replaced inside the checking process.', 'source_commits': []},
     'notes': 'check.py <id> --replay <file> [-v] re-executes a replay file. VERIF_SEED, VERIF_TIER, VERIF_CASES, VERIF_WALL are honoured.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
