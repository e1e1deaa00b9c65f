#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
BUILT = json.load(open(f"{here}/tools/built.json"))
m = {"version": 1, "setup_cmd": "cd /verif/mc && cargo build --release --offline", "checks": [], "not_applicable": [],
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses the public API only", "source_commits": []},
     "notes": "Every check: run.sh rebuilds /verif/mc (path dependency on /repo) and explores exhaustively within stated bounds; known_findings.txt lists fixed defects and known findings."}
for p in props:
    b = BUILT.get(p["id"])
    if b:
        m["checks"].append({"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json", "technique": b["technique"], "level": b.get("level", "model_checking"), "level_note": b["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(f"{here}/MANIFEST.json", "w"), ensure_ascii=False, indent=1)
