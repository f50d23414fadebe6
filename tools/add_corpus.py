"""Add replay files to the regression corpus: tools/add_corpus.py replays/X.json ..."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    r = json.load(open(f))
    path = os.path.join(root, "corpus", r["property"] + ".json")
    data = json.load(open(path)) if os.path.exists(path) else []
    e = dict(part=r["part"], case=r["case"], note=r["message"][:200])
    if not any(d["part"] == e["part"] and d["case"] == e["case"] for d in data):
        data.append(e)
    json.dump(data, open(path, "w"), indent=1)
