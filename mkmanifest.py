#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from modan.registry import PROPS
NA = json.load(open(os.path.join(HERE, 'not_applicable.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q modan check.py',
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                 'thorough_cmd': 'python3 check.py %s thorough' % i,
                 'technique': PROPS[i]['technique'], 'level': 'other', 'level_note': PROPS[i]['note']}
                for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NA.get(i, 'not built yet')} for i in ids if i not in PROPS]}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
