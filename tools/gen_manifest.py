#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.PROPS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from jobs import PROPS, TITLES, NOT_APPLICABLE  # noqa

NOTE = (
    "Bounded: every input within the stated bounds is decided (all feasible paths of the real code's LLVM IR, z3 for every "
    "branch and assertion), none outside. Trusted: the engine's semantics of LLVM IR (a sample of paths is re-run natively "
    "and compared on every run), rustc, z3, and the oracle in the harness. Bounds: "
)
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"python3 run.py {p}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
            "technique": "bounded symbolic execution of the compiled LLVM IR with z3",
            "level": "model_checking",
            "level_note": NOTE + s["bounds"],
        }
        for p, s in PROPS.items()
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items() if p not in PROPS],
}
for p in TITLES:
    assert p in PROPS or p in NOT_APPLICABLE, p
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
