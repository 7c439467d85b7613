#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a program in harness/cmd is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(here + '/tools/level_notes.json'))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.isdir(f'{here}/harness/cmd/{i}'):
        n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"./check {i} --thorough",
            "technique": "property-based testing: " + n['technique'],
            "level": "exploration",
            "level_note": n['note'],
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
