#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks, the levels below and the list of what is not claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks import REGISTRY, TECHNIQUE
from spec.not_applicable import NA

props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in REGISTRY:
        checks.append({
            'property': p, 'quick_cmd': f'python3 /verif/run.py {p}', 'thorough_cmd': f'python3 /verif/run.py {p} --thorough',
            'technique': TECHNIQUE.get(p, TECHNIQUE[REGISTRY[p][0]]), 'level': 'other',
            'level_note': 'static analysis of the current source: exhaustive over the partitions of the abstract domain (collections of symbolic length up to the '
                          'stated bound, opaque external calls), not a machine-checked proof',
        })
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': 'cd /verif/tools/rsast && cargo build --release --offline', 'checks': checks, 'not_applicable': na},
          open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
