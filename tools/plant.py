"""Development tool: hand-written changes (no demo) run against the named property's check.

    plant.py SPEC.py OUT.jsonl [--jobs N] [--procs N] [--ids a,b]

SPEC.py defines PLANTS = [(id, "C01" or "C01 C05", [(file under hydraxmpm, old, new), ...]), ...].
Every listed check is run; the change counts as missed for each check that stays quiet."""
import argparse
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, WORK = "/repo", "/tmp/plant_work"


def run(job):
    pid, checks, edits, procs = job
    d = f"{WORK}/{pid}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree(f"{REPO}/hydraxmpm", f"{d}/repo/hydraxmpm", ignore=shutil.ignore_patterns("__pycache__"))
    shutil.copytree(f"{REPO}/projects", f"{d}/repo/projects", ignore=shutil.ignore_patterns("__pycache__", "output"))
    for f, old, new in edits:
        p = f"{d}/repo/{f}" if f.startswith("projects/") else f"{d}/repo/hydraxmpm/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            return dict(id=pid, status=f"BAD EDIT {f} ({s.count(old)} matches)")
        open(p, "w").write(s.replace(old, new))
    env = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_EVIDENCE=f"{d}/ev", VERIF_REPLAYS=f"{d}/rp",
               VERIF_FAILFAST="1", VERIF_PROCS=str(procs), VERIF_SEED="1", VERIF_TIER="quick")
    out = dict(id=pid, status="", res={})
    for c in checks.split():
        t0 = time.time()
        r = subprocess.run([f"{ROOT}/run.sh", c], env=env, capture_output=True, text=True, cwd=ROOT)
        v = [x for x in r.stdout.splitlines() if x.startswith(c + "/") and ": " in x and "distinct" not in x]
        out["res"][c] = dict(rc=r.returncode, t=round(time.time() - t0), msg=(v[:1] or [r.stderr[-300:] if r.returncode == 2 else ""])[0][:250])
    out["status"] = "caught" if all(x["rc"] == 1 for x in out["res"].values()) else "MISSED"
    shutil.rmtree(d, ignore_errors=True)
    return out


ap = argparse.ArgumentParser()
ap.add_argument("spec")
ap.add_argument("out")
ap.add_argument("--jobs", type=int, default=4)
ap.add_argument("--procs", type=int, default=2)
ap.add_argument("--ids", default="")
a = ap.parse_args()
P = runpy.run_path(a.spec)["PLANTS"]
ids = a.ids.split(",") if a.ids else None
jobs = [(i, c, e, a.procs) for i, c, e in P if ids is None or i in ids]
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for fu in cf.as_completed([ex.submit(run, j) for j in jobs]):
        r = fu.result()
        with open(a.out, "a") as f:
            f.write(json.dumps(r) + "\n")
        print(r["status"], r["id"], {k: (v["rc"], v["t"], v["msg"][:140]) for k, v in r.get("res", {}).items()}, flush=True)
