#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the list of claimed properties."""
import json, sys, os
here = os.path.dirname(os.path.abspath(__file__))
claimed = open(os.path.join(here, 'claimed.txt')).read().split()
NOTE = {}
exec(open(os.path.join(here, 'notes.py')).read())
m = {"version": 1,
     "setup_cmd": "bash sim/build.sh /tmp/wego-setup-sim && rm -f /tmp/wego-setup-sim",
     "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())]}
for c in claimed:
    m["checks"].append({"property": c, "quick_cmd": "bash check.sh %s quick" % c,
        "thorough_cmd": "bash check.sh %s thorough" % c,
        "technique": "deterministic simulation with fault injection: " + TECH[c],
        "level": "exploration", "level_note": NOTE[c] + " " + COMMON})
props = [json.loads(l)["id"] for l in open(os.path.join(here, 'properties.jsonl'))]
for p in props:
    if p not in claimed and p not in NA:
        m["not_applicable"].append({"property": p, "reason": "no check yet"})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
