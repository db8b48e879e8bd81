#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from checks import CHECKS, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "its monitor is not built yet")} for p in ids if p not in CHECKS]
out = {
    "version": 1,
    "setup_cmd": "python3 -c 'import checks'",
    "checks": [{
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"python3 check.py {p} --thorough",
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"],
    } for p, c in sorted(CHECKS.items())],
    "not_applicable": na,
    "notes": "No hooks: every monitor observes the code through its public interface, built from /repo's sources "
             "with compiler instrumentation. known_findings.json lists repaired defects and known findings.",
}
json.dump(out, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
