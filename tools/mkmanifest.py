#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/plan.py."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
from plan import CHECKS, FAMILIES  # noqa: E402

NOTE = ("TLC checks the design model %s exhaustively within its bounds; every emitted behaviour and seeded random "
        "longer ones are executed on the real code and every recorded step is judged by %s. Exhaustive for the "
        "bounded model, sampled beyond it; trusts TLC, the Go toolchain and the harness tables that map model "
        "integers to floats.")
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in CHECKS:
        na.append({"property": p, "reason": "its check is not built yet"})
        continue
    fam = FAMILIES[CHECKS[p][0]]
    checks.append({
        "property": p,
        "quick_cmd": "bin/check " + p,
        "thorough_cmd": "bin/check " + p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": "TLA+ model checking with TLC, replay on the code and trace validation",
        "level": "model_checking",
        "level_note": NOTE % (", ".join(fam["models"]), fam["trace"]),
    })
m = {"version": 1, "setup_cmd": "bin/setup", "hooks": {"guard": "none", "enable": "no hooks are needed: the checks use the public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "bin/check rebuilds the harness against /repo on every run; known findings are in known_findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
