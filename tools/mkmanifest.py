#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, re, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
src = open("sim/src/props.rs").read()
claimed = re.findall(r'id: "(C\d\d)"', src)
props = [json.loads(l) for l in open("properties.jsonl")]
NA = {
 "N01": "A pure function of one value: no schedule, fault, clock, randomness, I/O or history for a simulator to vary. (The lengths that travel, RDLENGTH and section counts, are decided under C03, C04 and C06.)",
 "N02": "Pure functions of one name without schedule, fault, clock, randomness, I/O or history.",
 "N03": "A pure function of two arguments (a hash of given bytes) without schedule, fault, clock, randomness, I/O or history.",
}
NOTE = "Exploration: seeded search over schedules, faults and contents on the real code in one process. Everything that was drawn held; what was not drawn was not seen. Trusts the harness's models and reference codec."
checks = []
for i in sorted(claimed):
    checks.append({
        "property": i,
        "quick_cmd": f"VERIF_TIER=quick ./check.sh check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection",
        "level": "exploration",
        "level_note": NOTE,
    })
na = []
for p in props:
    if p["id"] not in claimed:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "Check still under construction.")})
m = {"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is a library symbol, the allocator or the public API. Known and fixed defects: known_findings.txt. Replay a violation with ./check.sh replay FILE."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
