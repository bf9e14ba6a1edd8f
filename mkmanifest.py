#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py."""
import json
import os

import registry

HERE = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid in registry.IDS:
    s = registry.PROPERTIES[pid]
    c = {
        "property": pid,
        "quick_cmd": f"python3 run_check.py {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 run_check.py {pid}",
        "technique": s.get("technique", "contracts evaluated at run time on the real code, bounded (stand-in)"),
        "level": s["level"],
        "level_note": s["note"],
    }
    if s.get("theorems"):
        c["theorems"] = s["theorems"]
    checks.append(c)
m = {
    "version": 1,
    "setup_cmd": "python3 -c \"import registry\"",
    "checks": checks,
    "not_applicable": [{"property": "C24", "reason": "cupy and a GPU are absent, so cupy's operations have no contract that could be checked against the library here, and no counterexample could be replayed"}],
    "notes": "no hooks in /repo: the verifier reads the source, the replay harness imports it",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
