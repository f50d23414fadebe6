"""Rewrites MANIFEST.json from the checks that exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = json.load(open(os.path.join(root, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "checks", i.lower() + ".py")):
        t = TECH.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"./run.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="property-based testing (Hypothesis): " + t.get("technique", "generated inputs against an explicit oracle"),
                           level="exploration",
                           level_note=t.get("note", "Holds on every generated case of the run (seeded by VERIF_SEED); no proof outside the generated domain.")))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"/verif\"); from lib import pbt; pbt.setup_paths(); import hypothesis, hydraxmpm'",
         checks=checks, not_applicable=na,
         notes="Every check runs `python -m lib.pbt CXX`: Hypothesis generators, sharded over worker processes, driving /repo's working tree; replay with ./run.sh CXX --replay FILE.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
