#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run from /verif)."""
import json
STATIC = "static analysis of the current source for every input and schedule within the stated rules; trusts go/types, go/ssa and the checker"
CLAIMS = {}
NA = {}
exec(open('tools/claims.py').read())
props = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in props:
    if p in CLAIMS:
        tech, note = CLAIMS[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p,
                       "technique": tech, "level": "other", "level_note": note})
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "cd checker && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /dev/null .", "checks": checks, "not_applicable": na,
     "notes": "no hooks in /repo are needed: every check reads the source"}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
