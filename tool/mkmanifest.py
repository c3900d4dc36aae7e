#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from notes.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tool"))
from notes import NOTES, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p not in NOTES: continue
    n = NOTES[p]
    checks.append({"property": p, "quick_cmd": "python3 tool/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tool/check.py " + p,
                   "technique": "contract_verification", "level": n.get("level", "proof"), "level_note": n["note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")} for p in props if p not in NOTES]
m = {"version": 1, "setup_cmd": "bash tool/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: visibility is widened in the extracted copy", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Contracts are run on /repo's source with f32 read as symbolic reals (extracted mechanically on every run, see DESIGN.md); obligations go to a ring normaliser, z3 and cvc5."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
