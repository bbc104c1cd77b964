#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json (id -> technique, note) and na.json (id -> reason)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
checks = json.load(open(os.path.join(here, 'checks.json')))
na = json.load(open(os.path.join(here, 'na.json')))
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p['id']
    if i in checks:
        t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                            "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na[i]})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
