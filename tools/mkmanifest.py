"""Writes /verif/MANIFEST.json from the table below; properties without an entry are not claimed."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
T = {}
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
checks, na = [], []
for i in ids:
    if i in T and os.path.exists(os.path.join(ROOT, "harness", "checks", i.lower() + ".py")):
        tech, level, note = T[i]
        checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}",
                       "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none (no hooks: the public API exposes the abstract state)", "enable": "nothing to enable; checks import /repo directly", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked by TLC inside every check; conformance harness in harness/. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
