#!/usr/bin/env python3
"""collects contracts/baseline.json from the evidence of passing runs: fingerprints of the functions that were proved (run by hand, all checks first)"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for p in sorted(glob.glob(os.path.join(V, 'evidence', '*.json'))):
    for f in json.load(open(p))['coverage'].get('functions_under_contract', ()):
        if not f['not_proved'] and f.get('fingerprint'):
            out.setdefault(f['module'], {})[f['function']] = f['fingerprint']
json.dump(out, open(os.path.join(V, 'contracts', 'baseline.json'), 'w'), indent=0, sort_keys=True)
print(sum(len(v) for v in out.values()), 'functions')
