#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vlib/meta.json."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta = json.load(open(os.path.join(R, "vlib", "meta.json")))
checks = []
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    m = meta[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       evidence_file=f"evidence/{i}.json", technique=m["technique"], level=m["level"], level_note=m["note"]))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q vlib check.py", checks=checks, not_applicable=[], notes=meta["notes"]),
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
