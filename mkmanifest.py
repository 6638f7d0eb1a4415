#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(os.path.join(V, "checks.json")))
notes = json.load(open(os.path.join(V, "notes.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    i = p["id"]
    if i not in conf:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "./check.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": notes[i]["technique"],
        "level": conf[i].get("level", "exploration"),
        "level_note": notes[i]["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": notes.get(p["id"], {}).get("na", "no check yet")} for p in props if p["id"] not in conf],
    "notes": "Property-based testing with pgregory.net/rapid over an independent 7z writer (harness/sz, harness/enc). No hooks in /repo. "
             "known_findings.txt lists repaired and recorded defects. See DESIGN.md.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
