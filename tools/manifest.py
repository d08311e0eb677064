#!/usr/bin/env python3
"""Writes MANIFEST.json from units.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from units import PROPS, NOT_APPLICABLE
checks = []
for p, c in sorted(PROPS.items()):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
        "technique": "contract-based deductive verification: Verus discharges contracts on the functions extracted from /repo; refused obligations are replayed by a search for a failing input on the real crate",
        "level": c["level"],
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "No hooks in /repo. See DESIGN.md.",
}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
