#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]

# id -> (technique, level, note)
T = json.load(open(root + "/tools/checks.json"))
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA or i not in T:
        continue
    t = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "./run.sh " + i,
        "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t["technique"],
        "level": t.get("level", "exploration"),
        "level_note": t["note"],
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "not built yet")}
      for p in props if p["id"] not in T]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: every monitor observes the public interfaces "
             "(syntax trees, font.Backend calls, mtex.Renderer calls, files, exit codes).",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
