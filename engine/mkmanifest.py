#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Bounded symbolic execution of the code compiled from /repo; within the bounds written in the evidence every path is "
        "explored and each assertion is decided by z3 for all values. ")
checks = []
for pid, p in PROPS.items():
    checks.append({
        "property": pid,
        "quick_cmd": f"python3-vt engine/check.py {pid} quick",
        "thorough_cmd": f"python3-vt engine/check.py {pid} thorough",
        "technique": "symbolic execution of the compiled LLVM IR of numopt, path conditions and assertions decided by z3 (" + p.get("theory", "QF_NRA") + "), counterexamples replayed on the plain build",
        "level": "model_checking",
        "level_note": NOTE + p.get("note", ""),
    })
m = {"version": 1, "setup_cmd": "python3-vt engine/build.py",
     "hooks": {"guard": "none: no hook is needed", "enable": "nothing to enable", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
