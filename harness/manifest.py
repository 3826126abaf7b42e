#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and registry.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from registry import CHECKS, TECHNIQUE, LEVEL_NOTE      # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, '..', 'properties.jsonl'))]
checks = [{'property': p['id'], 'quick_cmd': 'python3 harness/check.py %s' % p['id'],
           'thorough_cmd': 'VERIF_TIER=thorough python3 harness/check.py %s' % p['id'],
           'technique': TECHNIQUE.get(p['id'], TECHNIQUE['']), 'level': 'model_checking',
           'level_note': LEVEL_NOTE.get(p['id'], LEVEL_NOTE[''])}
          for p in props if p['id'] in CHECKS]
na = [{'property': p['id'], 'reason': 'the check is not built yet'} for p in props if p['id'] not in CHECKS]
m = {'version': 1, 'setup_cmd': 'python3 harness/check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Specification in TLA+ (spec/), checked with TLC; no hooks in /repo are needed. '
              'harness/check.py --replay FILE runs a recorded violation again.'}
json.dump(m, open(os.path.join(HERE, '..', 'MANIFEST.json'), 'w'), indent=1)
