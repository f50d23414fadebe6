"""Writes DESIGN.md from tools/design_template.md, the fixed findings and the planted bugs."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = json.load(open(os.path.join(root, "known_findings.json")))["fixed"]
caught = json.load(open(os.path.join(root, "tools", "caught.json")))
t = open(os.path.join(root, "tools", "design_template.md")).read()
t = t.replace("@FIXED@", "\n".join("* " + f.replace("fixed: property=", "", 1) for f in fixed))
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, 'not run yet')} |")
open(os.path.join(root, "DESIGN.md"), "w").write(t.replace("@SEEDS@", "\n".join(rows)))
