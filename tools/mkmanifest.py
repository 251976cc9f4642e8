#!/usr/bin/env python3
"""Generates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 sim/build.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({
            "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
            "evidence_file": f"evidence/{i}.json", "technique": checks.TECH,
            "level": checks.LEVEL.get(i, "exploration"),
            "level_note": checks.NOTE.get(i, "") + " " + checks.COMMON_NOTE})
    else:
        out["not_applicable"].append({"property": i, "reason": checks.NA.get(i, "no check registered yet")})
out["notes"] = ("No hooks in /repo: all seams (pthread, clock, files, allocation, thread pool, basic-block callbacks) are "
                "reached through the build of /verif/sim. fix: commits in /repo are listed in known_findings.txt.")
json.dump(out, open(R + "/MANIFEST.json", "w"), indent=1)
open(R + "/MANIFEST.json", "a").write("\n")
