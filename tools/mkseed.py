"""Make seeded/<id>/ from a specification file (a Python module with SEEDS: list of
dict(id, property, edits=[(file, old, new)], demo=python source, needs, breaks)) and try it:
the patch must apply, build, keep the stable tests, and the demo must tell the two trees apart.

    /opt/venv/bin/python tools/mkseed.py SPEC.py [ID ...]         create and confirm
    /opt/venv/bin/python tools/mkseed.py --check [ID ...]         run the property's check on each
"""
import importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
SH = """#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken (run with cwd = the repository)
export JAX_PLATFORMS=cpu MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def copy(i):
    d = f"/tmp/seedwork/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seedwork", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."], check=True)
    return d


def demo(sd, d):
    r = subprocess.run(["bash", f"{sd}/demo.sh"], cwd=d, env=ENV, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def make(s):
    i = s["id"]
    sd = f"{ROOT}/seeded/{i}"
    os.makedirs(sd, exist_ok=True)
    open(f"{sd}/demo.sh", "w").write(SH)
    os.chmod(f"{sd}/demo.sh", 0o755)
    open(f"{sd}/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{sd}/meta.json", "w"), indent=1)
    d = copy(i)
    try:
        rc0, out0 = demo(sd, d)
        for f, old, new in s["edits"]:
            t = open(f"{d}/{f}").read()
            if t.count(old) != 1:
                return f"{i}: {f}: pattern found {t.count(old)} times"
            open(f"{d}/{f}", "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        open(f"{sd}/patch.diff", "w").write(diff)
        # lines removed must be lines of the original repository
        base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
        notes = []
        for f, old, new in s["edits"]:
            b = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout.splitlines()
            cur = None
            for ln in diff.splitlines():
                if ln.startswith("--- a/"):
                    cur = ln[6:]
                elif cur == f and ln.startswith("-") and not ln.startswith("---") and ln[1:] not in b:
                    notes.append("not original: " + ln)
        rc1, out1 = demo(sd, d)
        ids = [x.replace("tests.", "tests/", 1).replace("::", ".py::", 1) for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]]
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", *ids], cwd=d,
                           env=dict(ENV, PYTHONPATH=d), capture_output=True, text=True)
        tests = t.stdout.strip().splitlines()[-1:]
        ok = rc0 == 0 and rc1 != 0
        return f"{i}: {'ok' if ok else 'BAD'} demo {rc0}/{rc1} tests {tests} {notes}" + ("" if ok else "\n--- unchanged:\n" + out0 + "\n--- patched:\n" + out1)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, props=None, seed="1"):
    sd = f"{ROOT}/seeded/{i}"
    p = json.load(open(f"{sd}/meta.json"))["property"]
    d = copy(i + "_c")
    out = []
    try:
        subprocess.run(["git", "-C", d, "apply", f"{sd}/patch.diff"], check=True)
        for q in props or [p]:
            r = subprocess.run(["./run.sh", q], cwd=ROOT, env=dict(ENV, VERIF_REPO=d, VERIF_SEED=seed, VERIF_EVIDENCE=f"/tmp/seedwork/ev_{i}", VERIF_REPLAYS=f"/tmp/seedwork/rp_{i}"), capture_output=True, text=True)
            last = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            v = [l for l in last if "VIOLATION" in l or "rror" in l][:2]
            out.append(f"{i} {q}: rc={r.returncode} {'CAUGHT' if r.returncode == 1 and any('VIOLATION property='+q in l for l in last) else 'missed'} {' | '.join(v)[:300]}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--check":
        ids = a[1:] or sorted(os.listdir(f"{ROOT}/seeded"))
        for i in ids:
            print(check(i), flush=True)
    else:
        spec = importlib.util.spec_from_file_location("spec", a[0])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        todo = [s for s in m.SEEDS if not a[1:] or s["id"] in a[1:]]
        with ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, todo):
                print(r, flush=True)
