#!/usr/bin/env python3
"Writes MANIFEST.json from the table of checks and properties.jsonl."
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import table
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in table.META:
        t, lv, note = table.META[i]
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level=lv, level_note=note))
    else: na.append(dict(property=i, reason=table.NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
    notes='Each check builds its drivers from /repo/include (header-only) into /verif/build, explores the TLA+ design with TLC, replays it on the real code and validates the recorded traces with TLC. No hooks in /repo are needed.'), open(R + '/MANIFEST.json', 'w'), indent=1)
