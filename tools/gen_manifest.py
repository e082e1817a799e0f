#!/usr/bin/env python3
"""Write MANIFEST.json from props.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from props import PROPS
checks = []
for i, p in PROPS.items():
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
                       technique=p["technique"], level=p["level"], level_note=p["note"]))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[]), open(R + "/MANIFEST.json", "w"), indent=1)
