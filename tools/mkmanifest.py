#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the properties and the list of claimed checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
meta = json.load(open(os.path.join(here, "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the checks drive the public API and the commands and observe return values and the emitted PDF."}
for p in props:
    if p in meta:
        c = meta[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
                            "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
