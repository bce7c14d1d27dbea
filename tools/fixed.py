"""python3 tools/fixed.py 'property=<id> <commit> <what failed>': record a repair."""
import json
import os
import sys

p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p, encoding="utf-8"))
d["fixed"] += ["fixed: " + a for a in sys.argv[1:]]
with open(p, "w", encoding="utf-8") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
