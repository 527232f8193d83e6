#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
CLAIMED = os.environ.get("CLAIMED", "").split() or None
NOTES = json.load(open(os.path.join(ROOT, "notes.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in NOTES:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": NOTES[i]["technique"],
        "level": "exploration",
        "level_note": NOTES[i]["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none: the crate's public building blocks are enough, /repo carries no hooks", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "its check is still being built"} for p in props if p["id"] not in NOTES],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
