#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'harness')]
import plans
PROPS = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = plans.NOTES
GENERAL = ("TLA+ specification checked with TLC; executions of the real code are recorded call by call and TLC decides "
           "for each whether it is a behaviour of the specification. ")
checks, missing = [], []
for p in PROPS:
    i = p['id']
    if i in plans.PLANS:
        checks.append({'property': i, 'quick_cmd': f'python3 vf.py check {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 vf.py check {i}',
                       'technique': plans.TECH.get(i, 'TLA+ specification (TLC) with trace validation of recorded executions'),
                       'level': 'model_checking', 'level_note': GENERAL + NOTES.get(i, '')})
    else:
        missing.append({'property': i, 'reason': plans.WHYNOT.get(i, 'no check has been built for it yet')})
json.dump({'version': 1, 'setup_cmd': 'python3 vf.py list', 'checks': checks, 'not_applicable': missing},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [m['property'] for m in missing])
