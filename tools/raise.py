"""raise.py ID...: properties whose obligations are all discharged"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.json")
d = json.load(open(p))
for c in sys.argv[1:]:
    d[c] = dict(d["C01"])
json.dump(d, open(p, "w"), indent=1)
