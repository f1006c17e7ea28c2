#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.split("\n") if "guarded by T86_SIM" in l]
m = dict(version=1, setup_cmd="python3 check.py --build",
         hooks=dict(guard="T86_SIM", enable="g++ -DT86_SIM (check.py compiles /repo/src with it; the project's own build never defines it)", source_commits=hooks),
         checks=[dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                      technique="deterministic simulation with fault injection: " + CHECKS[p].get("technique", "seeded search over timing, guesses and programs against a sequential reference machine"),
                      level="exploration", level_note=CHECKS[p].get("level_note", "Seeded sampling of programs, machine sizes and complete pipeline schedules; real machine code, reference interpreter trusted."))
                 for p in props if p in CHECKS],
         not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, "check not built yet")) for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
