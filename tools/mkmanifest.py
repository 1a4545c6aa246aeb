"""Regenerates /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
TECH = "TLA+ specification model-checked with TLC; executions of the real code (driven by TLC-enumerated and seeded random inputs) validated by TLC against the specification"
NOTE = ("The TLA+ specification is checked exhaustively by TLC at small constants; every recorded execution of the real code is accepted or "
        "rejected by TLC against the specification's transition relation. Exhaustive for the small scopes listed in the evidence, sampled (seeded) "
        "beyond them. Trusts TLC, CPython, and the recorder in checks/%s.py, which uses the public API only.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="bin/check %s" % i, thorough_cmd="bin/check %s --thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH, level="model_checking", level_note=NOTE % i.lower()))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bin/setup", checks=checks, not_applicable=na,
         notes="No hooks are needed: the library is sequential and every observation is made through its public API.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
