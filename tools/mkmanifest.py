"""writes MANIFEST.json; PROVED lists the properties whose deductive obligations are all discharged"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
lv = {}
f = os.path.join(HERE, "tools", "levels.json")
if os.path.exists(f):
    lv = json.load(open(f))
checks = []
for p in props:
    i = p["id"]
    l = lv.get(i, {})
    checks.append(dict(property=i, quick_cmd="bash run.sh %s quick" % i, thorough_cmd="bash run.sh %s thorough" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=l.get("technique", "contracts on the real functions; bounded run-time contract checking"),
                       level=l.get("level", "exploration"),
                       level_note=l.get("note", "bounded: contracts evaluated on generated inputs only")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=[],
         notes="No hooks: /repo is read (AST) and imported as it is. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
