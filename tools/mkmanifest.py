#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = dict(NOT_APPLICABLE)
for i in allp:
    if i not in PROPS and i not in na:
        na[i] = "no check yet (being built)"
m = {
 "version": 1,
 "setup_cmd": "./check build",
 "checks": [dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
   evidence_file="evidence/%s.json" % i,
   technique="deterministic simulation with fault injection: seeded search over schedules, faults and inputs against " + PROPS[i]["oracle"],
   level="exploration", level_note=PROPS[i]["note"]) for i in allp if i in PROPS],
 "not_applicable": [dict(property=i, reason=na[i]) for i in allp if i in na],
 "notes": "No hooks in /repo: the simulator uses the seams network.Server/network.Connection, sync.Server, crypto/rand.Reader and testing/synctest. All commits in /repo are 'fix:' commits. ./check replay FILE re-executes a replay file.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
