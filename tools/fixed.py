#!/usr/bin/env python3
"""usage: fixed.py <property> <commit> <what failed>: records a repaired defect in known_findings.json."""
import json
import os
import sys

path = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"
d = json.load(open(path))
d["fixed"].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d, open(path, "w"), indent=1, ensure_ascii=False)
