"""Writes MANIFEST.json (run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(ROOT, "tools"))
from manifest_table import TABLE, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in TABLE:
        tech, note = TABLE[p]
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick ./check.py " + p, "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "no check yet")} for p in props if p not in TABLE]
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; each check explores its specification and binds it to /repo in the same run. See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
