#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below (run after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(V + "/tools/notes.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{V}/checks/{i}.py") and i in NOTES:
        checks.append({"property": i, "quick_cmd": f"python3-vt checks/{i}.py", "thorough_cmd": f"VERIF_TIER=thorough python3-vt checks/{i}.py",
                       "evidence_file": f"evidence/{i}.json", "technique": NOTES[i][0], "level": "exploration", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": NOTES.get("na", {}).get(i, "no check built yet for this property")})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
