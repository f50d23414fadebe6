"""Property-based testing runner shared by every check in /verif.

A check is a module /verif/checks/cXX.py which registers *parts*.  A part is a
Hypothesis generator of JSON-able cases plus ``run(case, rec)``, which drives the
real hydraxmpm code and compares it with an explicit oracle, raising Violation.

    python -m lib.pbt C01                     run the whole check
    python -m lib.pbt C01 --replay FILE       run one saved case, no Hypothesis
    python -m lib.pbt C01 --part NAME         run only that part (development)

Parts are split in shards, each a worker process with a seed derived from
VERIF_SEED, so the run is reproducible and uses the available cores.
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import math
import os
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EXTRA_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
MAX_PROCS = int(os.environ.get("VERIF_PROCS", "7"))
FAILFAST = os.environ.get("VERIF_FAILFAST") == "1"  # mutation sweeps: stop at the first violation, no shrinking


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class HarnessError(Exception):
    """The check itself is wrong (never reported as a violation)."""


# --------------------------------------------------------------------------
# registry
# --------------------------------------------------------------------------
class Part:
    def __init__(self, fn, gen, quick, thorough, shards, x64, rule):
        self.fn, self.name = fn, fn.__name__
        self.gen, self.quick, self.thorough = gen, quick, thorough
        self.shards, self.x64, self.rule = shards, x64, rule


PARTS: dict[str, Part] = {}


def part(gen, quick=60, thorough=None, shards=1, x64=True, rule=""):
    """Register a part.  ``gen`` is a Hypothesis strategy (or callable giving one)."""

    def deco(fn):
        PARTS[fn.__name__] = Part(
            fn, gen, quick, thorough if thorough is not None else quick * 20,
            shards, x64, rule or (fn.__doc__ or "").strip(),
        )
        return fn

    return deco


# --------------------------------------------------------------------------
# recording and comparing
# --------------------------------------------------------------------------
class Rec:
    """What one case tells the runner: triviality, labels and observed margins."""

    def __init__(self):
        self.nontrivial = False
        self.labels = []
        self.margins = {}

    def nt(self, flag=True):
        self.nontrivial = self.nontrivial or bool(flag)

    def label(self, *names):
        self.labels += [str(n) for n in names]

    def margin(self, name, value):
        """value = observed error / allowed error."""
        v = float(value)
        if not (v <= self.margins.get(name, -1.0)):
            self.margins[name] = v

    # -- assertions -------------------------------------------------------
    def check(self, cond, msg, key=None):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg, key)

    def close(self, got, want, rtol=1e-9, atol=0.0, msg="", scale=None, key=None):
        """|got - want| <= atol + rtol * scale, elementwise, NaN never equal.

        ``scale`` defaults to the largest magnitude in ``want`` (a norm-wise
        comparison: cancellation in single components is not an error).
        """
        import numpy as np

        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape} instead of {want.shape}", key)
        if got.size == 0:
            return
        if got.dtype == object or want.dtype == object:
            raise HarnessError(f"{msg}: object arrays")
        got = got.astype(np.float64)
        want = want.astype(np.float64)
        if not np.all(np.isfinite(want)):
            raise HarnessError(f"{msg}: oracle not finite")
        if scale is None:
            scale = float(np.max(np.abs(want)))
        tol = atol + rtol * np.asarray(scale, dtype=np.float64)
        err = np.abs(got - want)
        tol = np.broadcast_to(tol, err.shape)
        bad = ~(err <= tol)
        with np.errstate(divide="ignore", invalid="ignore"):
            ratio = np.where(err == 0, 0.0, err / np.maximum(tol, 1e-300))
        self.margin(msg.split(":")[0] or "close", np.max(np.where(np.isnan(ratio), np.inf, ratio)))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[np.argmax(np.where(np.isnan(err[bad]), np.inf, err[bad]))])
            raise Violation(
                f"{msg}: at {i} got {got[i]!r} instead of {want[i]!r} "
                f"(|error| {err[i]:.3e} > {tol[i]:.3e})", key)

    def le(self, got, bound, msg="", tol=0.0, key=None):
        import numpy as np

        got = np.asarray(got, dtype=np.float64)
        bound = np.asarray(bound, dtype=np.float64)
        g, b = np.broadcast_arrays(got, bound)
        bad = ~(g <= b + tol)
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation(f"{msg}: at {i} {g[i]!r} exceeds {b[i]!r}", key)

    def finite(self, x, msg, key=None):
        import numpy as np

        a = np.asarray(x)
        if a.dtype.kind in "fc" and not np.all(np.isfinite(a)):
            i = tuple(int(v) for v in np.argwhere(~np.isfinite(a))[0])
            raise Violation(f"{msg}: not finite at {i}: {a[i]!r}", key)

    def same(self, a, b, msg, key=None):
        """Bit-for-bit equal arrays (NaN equals NaN), same shape and dtype."""
        import numpy as np

        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            raise Violation(f"{msg}: {a.dtype}{a.shape} instead of {b.dtype}{b.shape}", key)
        if a.tobytes() != b.tobytes():
            raise Violation(f"{msg}: values differ", key)


# --------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {k["key"]: k["what"] for k in data.get("known", []) if k["property"] == prop}


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def setup_paths():
    for p in (REPO, ROOT):
        while p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    if EXTRA_SITE not in sys.path:
        sys.path.append(EXTRA_SITE)


def execute(p: Part, case, stats, known):
    """Run one case; returns None or the Violation."""
    rec = Rec()
    bad = None
    try:
        p.fn(case, rec)
    except Violation as v:
        if v.key is not None and v.key in known:
            stats["known_seen"][v.key] = stats["known_seen"].get(v.key, 0) + 1
        else:
            bad = v
    except (HarnessError, MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:  # the unchanged code raises on no generated case
        tb = traceback.extract_tb(e.__traceback__)
        inside = [f for f in tb if "hydraxmpm" in f.filename]
        where = inside[-1] if inside else tb[-1]
        bad = Violation(
            f"raised {type(e).__name__}: {str(e).strip().splitlines()[0][:300] if str(e).strip() else ''} "
            f"at {os.path.basename(where.filename)}:{where.lineno} in {where.name}")
        bad.__cause__ = e
    if stats is not None:
        stats["evaluations"] += 1
        if rec.nontrivial:
            h = case_hash(case)
            if h not in stats["hashes"]:
                stats["hashes"].add(h)
                if len(stats["samples"]) < 2:
                    stats["samples"].append({"part": p.name, "case": trim(case)})
        for lab in rec.labels:
            stats["labels"][lab] = stats["labels"].get(lab, 0) + 1
        for k, v in rec.margins.items():
            if not (v <= stats["margins"].get(k, -1.0)):
                stats["margins"][k] = v
    return bad


def trim(x, depth=0):
    """Cases are written out in full unless an array is long."""
    if isinstance(x, dict):
        return {k: trim(v, depth + 1) for k, v in x.items()}
    if isinstance(x, list):
        if len(x) > 12:
            return [trim(v, depth + 1) for v in x[:8]] + [f"... {len(x)} entries"]
        return [trim(v, depth + 1) for v in x]
    return x


def worker(args):
    setup_paths()
    mod = importlib.import_module(f"checks.{args.prop.lower()}")
    p = mod_parts(mod)[args.part]
    known = load_known(args.prop)
    stats = dict(evaluations=0, hashes=set(), samples=[], labels={}, margins={},
                 known_seen={}, skipped=0)
    out = dict(part=p.name, shard=args.shard, violation=None, error=None)
    t0 = time.time()
    thorough = args.tier == "thorough"
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, seed, settings
    import hypothesis.internal.conjecture.engine as eng

    eng.MAX_SHRINKING_SECONDS = 300 if thorough else 40

    def fresh(runner):
        """Independent draws only: Hypothesis spends much of a small budget on
        near-minimal cases and mutations of them, which here means unmoving,
        unstressed particles.  Shrinking is left to Hypothesis."""
        if Phase.generate not in runner.settings.phases or runner.interesting_test_cases:
            return
        runner._switch_to_hypothesis_provider = True
        runner.cached_test_function((eng.ChoiceTemplate("simplest", count=None),))
        runner.health_check_state = None
        while runner.should_generate_more():
            runner.test_function(runner.new_conjecture_data(()))

    assert hasattr(eng.ConjectureRunner, "generate_new_test_cases")
    eng.ConjectureRunner.generate_new_test_cases = fresh
    n = max(1, math.ceil((p.thorough if thorough else p.quick) / p.shards))
    if args.examples:
        n = args.examples
    failing = []
    state = {"count": 0}

    def body(case):
        if not failing and time.time() - t0 > args.budget:
            stats["skipped"] += 1
            return
        state["count"] += 1
        if state["count"] % 1500 == 0:
            import jax
            jax.clear_caches()
        v = execute(p, case, stats if not failing else None, known)
        if v is not None:
            failing.append((case, v))
            raise v

    try:
        # 1. regression corpus, shard 0 only
        if args.shard == 0:
            path = os.path.join(ROOT, "corpus", f"{args.prop}.json")
            if os.path.exists(path):
                with open(path) as f:
                    for entry in json.load(f):
                        if entry["part"] == p.name:
                            v = execute(p, entry["case"], stats, known)
                            if v is not None:
                                failing.append((entry["case"], v))
                                break
        # 2. generated cases
        if not failing:
            gen = p.gen() if callable(p.gen) else p.gen
            test = given(gen)(body)
            test = settings(max_examples=n, database=None, deadline=None,
                            suppress_health_check=list(HealthCheck),
                            phases=[Phase.generate] + ([] if FAILFAST else [Phase.shrink]),
                            report_multiple_bugs=False, print_blob=False)(test)
            h = hashlib.sha256(f"{args.seed}/{args.prop}/{p.name}/{args.shard}".encode())
            test = seed(int.from_bytes(h.digest()[:8], "big"))(test)
            try:
                test()
            except Exception as e:
                if not failing:
                    raise
    except Exception as e:
        if not failing:
            out["error"] = "".join(traceback.format_exception(e))[-4000:]
    if failing:
        case, v = failing[-1]
        # re-run outside Hypothesis: the replay file is what must reproduce it
        again = None
        try:
            again = execute(p, case, None, known)
        except Exception:
            pass
        if again is None and len(failing) > 1:
            for c2, v2 in reversed(failing[:-1]):
                a2 = execute(p, c2, None, known)
                if a2 is not None:
                    case, v, again = c2, v2, a2
                    break
        out["violation"] = dict(case=case, msg=str(v), reproducible=again is not None,
                                trace="".join(traceback.format_exception(v))[-3000:])
    stats["hashes"] = sorted(stats["hashes"])
    out["stats"] = stats
    out["wall"] = time.time() - t0
    with open(args.out, "w") as f:
        json.dump(out, f)
    return 0


def mod_parts(mod):
    return PARTS


# --------------------------------------------------------------------------
# main
# --------------------------------------------------------------------------
def child_env(x64):
    env = dict(os.environ)
    env.update(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
               PYTHONHASHSEED="0", JAX_TRACEBACK_FILTERING="off",
               JAX_ENABLE_X64="1" if x64 else "0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false "
                         "--xla_force_host_platform_device_count=1",
               PYTHONPATH=ROOT + os.pathsep + REPO)
    return env


def run_replay(args):
    with open(args.replay) as f:
        rep = json.load(f)
    mod = importlib.import_module(f"checks.{args.prop.lower()}")
    p = PARTS[rep["part"]]
    want = "1" if p.x64 else "0"
    if os.environ.get("VERIF_CHILD") != "1":
        env = child_env(p.x64)
        env["VERIF_CHILD"] = "1"
        return subprocess.call([sys.executable, "-m", "lib.pbt", args.prop, "--replay", args.replay],
                               env=env, cwd=ROOT)
    v = execute(p, rep["case"], dict(evaluations=0, hashes=set(), samples=[], labels={},
                                     margins={}, known_seen={}, skipped=0), load_known(args.prop))
    if v is None:
        print(f"replay of {args.prop}/{p.name}: property held")
        return 0
    print("".join(traceback.format_exception(v))[-3000:], file=sys.stderr)
    print(f"replay of {args.prop}/{p.name}: {v}")
    print(f"VIOLATION property={args.prop} replay={args.replay}")
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--examples", type=int, default=0)
    ap.add_argument("--worker", action="store_true")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--out")
    args = ap.parse_args()
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if not args.budget:
        args.budget = float(os.environ.get("VERIF_BUDGET", "1800" if args.tier == "thorough" else "200"))
    if args.worker:
        return worker(args)
    setup_paths()
    if args.replay:
        return run_replay(args)

    t0 = time.time()
    mod = importlib.import_module(f"checks.{args.prop.lower()}")
    jobs = []
    for p in PARTS.values():
        if args.part and p.name not in args.part.split(","):
            continue
        for s in range(p.shards):
            jobs.append((p, s))
    tmp = tempfile.mkdtemp(prefix="verif_")
    running, results, errors = [], [], []
    pending = list(jobs)
    hard = args.budget + (1500 if args.tier == "thorough" else 400)
    try:
        while pending or running:
            while pending and len(running) < MAX_PROCS:
                p, s = pending.pop(0)
                out = os.path.join(tmp, f"{p.name}_{s}.json")
                log = open(os.path.join(tmp, f"{p.name}_{s}.log"), "w")
                cmd = [sys.executable, "-m", "lib.pbt", args.prop, "--worker", "--part", p.name,
                       "--shard", str(s), "--seed", str(args.seed), "--tier", args.tier,
                       "--budget", str(args.budget), "--out", out,
                       "--examples", str(args.examples)]
                env = child_env(p.x64)
                env.update(VERIF_SHARD=str(s), VERIF_SHARDS=str(p.shards))
                proc = subprocess.Popen(cmd, env=env, cwd=ROOT, stdout=log,
                                        stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
                running.append((proc, p, s, out, log, time.time()))
            time.sleep(0.1)
            still = []
            for item in running:
                proc, p, s, out, log, ts = item
                if proc.poll() is None:
                    if time.time() - ts > hard:
                        proc.kill()
                        proc.wait()
                        errors.append(f"{p.name}/{s}: no answer in {hard:.0f} s")
                        log.close()
                        continue
                    still.append(item)
                    continue
                log.close()
                if proc.returncode == 0 and os.path.exists(out):
                    with open(out) as f:
                        r = json.load(f)
                    results.append(r)
                    if FAILFAST and r["violation"]:
                        pending.clear()
                        for other in running:
                            if other is not item:
                                other[0].kill()
                                other[0].wait()
                        still = []
                        break
                    if r["error"]:
                        errors.append(f"{p.name}/{s}: {r['error']}")
                else:
                    with open(log.name) as f:
                        errors.append(f"{p.name}/{s}: worker exit {proc.returncode}\n" + f.read()[-3000:])
            running = still
    finally:
        for item in running:
            item[0].kill()
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)

    # evidence
    known = load_known(args.prop)
    labels, margins, per_part, known_seen = {}, {}, {}, {}
    hashes, samples, ev, skipped = set(), [], 0, 0
    for r in sorted(results, key=lambda r: (r["part"], r["shard"])):
        st = r["stats"]
        ev += st["evaluations"]
        skipped += st["skipped"]
        hashes |= {r["part"] + h for h in st["hashes"]}
        samples += st["samples"][: 1 if r["shard"] else 2]
        pp = per_part.setdefault(r["part"], dict(evaluations=0, nontrivial=0, wall_s=0.0))
        pp["evaluations"] += st["evaluations"]
        pp["nontrivial"] += len(st["hashes"])
        pp["wall_s"] = round(pp["wall_s"] + r["wall"], 1)
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in st["margins"].items():
            margins[k] = max(margins.get(k, 0.0), v) if v == v else v
        for k, v in st["known_seen"].items():
            known_seen[k] = known_seen.get(k, 0) + v
    viols = [(r["part"], r["violation"]) for r in results if r["violation"]]
    rule = getattr(mod, "RULE", "")
    rule += " Parts: " + " | ".join(f"{p.name}: {' '.join(p.rule.split())}" for p in PARTS.values())
    evidence = dict(
        property=args.prop, tier=args.tier, seed=int(args.seed) if str(args.seed).lstrip("-").isdigit() else 0,
        level="exploration",
        coverage=dict(evaluations=ev, distinct_nontrivial=len(hashes), rule=rule.strip(),
                      samples=samples[:8], parts=per_part, labels=dict(sorted(labels.items())),
                      worst_error_over_tolerance={k: (float(f"{v:.3g}") if math.isfinite(v) else str(v))
                                                  for k, v in sorted(margins.items())},
                      cases_skipped_by_time_budget=skipped, known_findings_seen=known_seen),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(time.time() - t0, 2), violations=len(viols))
    if not args.part:
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, f"{args.prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={args.prop} {what}")
    for name, pp in sorted(per_part.items()):
        print(f"{args.prop}/{name}: {pp['evaluations']} cases, {pp['nontrivial']} distinct non-trivial, {pp['wall_s']} s")
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(evidence["coverage"]["worst_error_over_tolerance"], indent=1))
        print(json.dumps(evidence["coverage"]["labels"]))
    if viols:
        rpdir = os.environ.get("VERIF_REPLAYS", "replays")
        os.makedirs(os.path.join(ROOT, rpdir), exist_ok=True)
        for name, v in viols:
            path = os.path.join(rpdir, f"{args.prop}_{name}_{case_hash(v['case'])}.json")
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(dict(property=args.prop, part=name, message=v["msg"],
                               reproducible=v["reproducible"], case=v["case"]), f, indent=1)
            print(f"{args.prop}/{name}: {v['msg']}" + ("" if v["reproducible"] else " (not reproduced on re-run)"))
            if os.environ.get("VERIF_VERBOSE") == "2":
                print(v["trace"])
                print(json.dumps(v["case"]))
            print(f"VIOLATION property={args.prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR " + e, file=sys.stderr)
        return 2
    print(f"{args.prop}: held on {ev} cases ({len(hashes)} distinct non-trivial), {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    # run as the importable module, so that checks register into the same PARTS
    setup_paths()
    import lib.pbt as _self
    sys.exit(_self.main())
