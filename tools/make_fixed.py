"""Rewrites the 'fixed' list of known_findings.json from /repo's fix: commits and the property map below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(root, "tools", "fix_map.json")))
out = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s"], text=True)
fixed = []
for l in out.splitlines():
    h, s = l.split("\t", 1)
    if s.startswith("fix: "):
        keys = [k for k in MAP if k in s]
        assert len(keys) == 1, (s, keys)
        fixed.append(f"fixed: property={MAP[keys[0]]} {h} {s[5:]}")
p = os.path.join(root, "known_findings.json")
d = json.load(open(p))
d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
print(len(fixed), "fixed")
