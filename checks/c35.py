"""C35: compressed trajectories read back as the simulation they were saved from."""
import importlib
import json
import os
import pathlib
import shutil
import sys
import tempfile
from functools import lru_cache

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A state (one simulation, a batch or a batch of trajectories; built by the scene builder, with any bodies) is written and read back with the plain zarr reader. "
        "Non-trivial: some array holds different values, and the state has more than one array of a name or a batch.")
ASSUMPTIONS = ["values within half precision (stress in kPa) when half precision is asked for"]


@lru_cache(None)
def saver():
    d = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "projects", "lorentz_collapse")
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module("save_data").save_compressed_sim


POOL = pool(10, seed=35, dim=[2, 3], bodies=["one", "shared", "separate"], scheme=list(SCHEMES), law=["elastic", "fluid", "dp", "mcc"])


@lru_cache(None)
def scene_of(key):
    c = dict(key)
    dim = c["dim"]
    g = GRIDS[dim][0]
    grids = [g, g] if c["bodies"] == "separate" else [g]
    nb = 1 if c["bodies"] == "one" else 2
    bodies = []
    for i in range(nb):
        n = [4, 3][i]
        pos = np.array(g["origin"]) + g["h"] * (1.2 + 0.3 * np.arange(n))[:, None] * np.ones(dim)
        bodies.append(dict(mp=dict(pos=pos, vel=np.zeros((n, dim)), mass=np.ones(n), vol=np.full(n, 0.25 * g["h"] ** dim)),
                           law=(c["law"], {}), g=i if c["bodies"] == "separate" else 0, kernel="quadratic"))
    forces = [("gravity", dict(gravity=A([0.0] * (dim - 1) + [-9.8]), is_apply_on_grid=True))]
    return simple_scene(grids=grids, bodies=bodies, scheme=c["scheme"], dt=1e-3, forces=forces)


@composite
def gen(draw):
    c = pick(draw, *share(POOL))
    saves = []
    for _ in range(pick(draw, 1, 1, 2)):
        saves.append(dict(batch=pick(draw, [], [1], [3], [2, 2], [1, 3], [3, 1]), half=pick(draw, True, False), only=pick(draw, True, False),
                          body=integer(draw, 0, 3), seed=integer(draw, 0, 10**6), size=pick(draw, 0, -4, 3, 1),
                          meta=draw_meta(draw), aspath=pick(draw, True, False), default=pick(draw, True, False)))
    return dict(cfg=c, saves=saves)


def draw_meta(draw, depth=2):
    if pick(draw, False, False, True) and depth == 2:
        return None
    out = {}
    for i in range(integer(draw, 0, 4)):
        kinds = ["int", "float", "text", "array", "list", "flag", "tuple", "scalar"] + (["map"] if depth else [])
        k = pick(draw, *kinds)
        name = pick(draw, "mode", "N", "bounds", "tilt angle", "a/b", "é") + (str(i) if i else "")
        out[name] = {"int": lambda: integer(draw, -5, 10**9), "float": lambda: num(draw, -1e3, 1e3), "text": lambda: pick(draw, "", "VARY", "a \"b\""), "flag": lambda: True,
                     "array": lambda: dict(_array=arr(draw, (2, integer(draw, 1, 3)), -5.0, 5.0), np=pick(draw, True, False)), "list": lambda: [1, dict(_array=[0.5, 0.25], np=False), "x"],
                     "tuple": lambda: dict(_tuple=[2, dict(_array=arr(draw, (2,), -5.0, 5.0), np=boolean(draw)), [dict(_tuple=["z", dict(_array=[1.5], np=True)])]]),
                     "scalar": lambda: dict(_array=num(draw, -5.0, 5.0, 16), np=boolean(draw)),
                     "map": lambda: draw_meta(draw, depth - 1) or {}}[k]()
    return out


def given(m):
    """metadata as a user gives it: with arrays"""
    if isinstance(m, dict):
        if "_array" in m:
            return np.array(m["_array"]) if m["np"] else jnp.asarray(m["_array"])
        if "_tuple" in m:
            return tuple(given(v) for v in m["_tuple"])
        return {k: given(v) for k, v in m.items()}
    return [given(v) for v in m] if isinstance(m, list) else m


def plain(m):
    if isinstance(m, dict):
        if "_tuple" in m:
            return plain(m["_tuple"])
        return m["_array"] if "_array" in m else {k: plain(v) for k, v in m.items()}
    return [plain(v) for v in m] if isinstance(m, list) else m


def walk(obj, name=""):
    """every array of a state with the path a reader would look for"""
    join = (name + "/") if name else ""
    if isinstance(obj, (tuple, list)):
        for i, v in enumerate(obj):
            yield from walk(v, f"{join}{i}")
    elif isinstance(obj, dict):
        for k, v in obj.items():
            yield from walk(v, f"{join}{k}")
    elif hasattr(obj, "__dataclass_fields__"):
        for k, f in obj.__dataclass_fields__.items():
            if not f.metadata.get("static", False):
                yield from walk(getattr(obj, k), f"{join}{k}")
    elif isinstance(obj, (jnp.ndarray, np.ndarray)):
        yield name, np.asarray(obj)


def filled(state, s):
    """the state with random contents and a batch in front"""
    rng = np.random.default_rng(s["seed"])

    def leaf(x):
        if not eqx.is_array(x):
            return x
        shape = tuple(s["batch"]) + x.shape
        if jnp.issubdtype(x.dtype, jnp.floating):
            return jnp.asarray(rng.standard_normal(shape) * 10.0 ** s["size"], x.dtype)
        if x.dtype == bool:
            return jnp.asarray(rng.random(shape) < 0.5)
        return jnp.asarray(rng.integers(0, 100000 if jnp.iinfo(x.dtype).bits > 16 else 100, shape), x.dtype)

    st = jax.tree_util.tree_map(leaf, state)
    return eqx.tree_at(lambda a: [m.stress_stack for m in a.world.material_points], st, [m.stress_stack * 1000 for m in st.world.material_points])


def read(group, name=""):
    import zarr
    out = {}
    for k, a in group.arrays():
        out[f"{name}{k}"] = np.asarray(a[...])
    for k, g in group.groups():
        out.update(read(g, f"{name}{k}/"))
    return out


@part(gen, quick=160, thorough=4000, shards=5)
def roundtrip(case, rec):
    """names, values, precision and metadata of what is read back"""
    import zarr
    c = case["cfg"]
    solver, state = scene_of(tuple(sorted(c.items())))
    root = tempfile.mkdtemp(prefix="vp_c35_")
    try:
        path = os.path.join(root, "run.zarr")
        for s in case["saves"]:
            st = filled(state, s)
            i = s["body"] % len(st.world.material_points)
            kw = dict(metadata=None if s["meta"] is None else given(s["meta"]))
            if not (s["default"] and s["half"]):
                kw["convert_to_float16"] = s["half"]
            if not (s["default"] and s["only"]):
                kw["save_only_mp_state"] = s["only"]
            if i or not s["default"]:
                kw["mp_idx"] = i
            with quiet():
                saver()(st, pathlib.Path(path) if s["aspath"] else path, **kw)
            want = dict(walk(st.world.material_points[i] if s["only"] else st))
            got = {"/".join(q.strip(".[]'") for q in k.split("/")): v for k, v in read(zarr.open(path, mode="r")).items()}
            rec.check(set(got) == set(want), lambda: f"arrays {sorted(set(want) ^ set(got))} are missing or extra")
            for k, w in want.items():
                g = got[k]
                if s["only"] and k == "stress_stack":
                    w = w / 1000
                rec.check(g.shape == w.shape, lambda: f"{k}: shape {g.shape} instead of {w.shape}")
                if np.issubdtype(w.dtype, np.floating) and s["half"]:
                    big = np.abs(w) < 65000
                    rec.check(g.dtype == np.float16, lambda: f"{k}: {g.dtype} instead of half precision")
                    rec.close(g.astype(float)[big], w.astype(float)[big], rtol=2.0**-10.9, atol=2.0**-24.9, scale=None, msg=f"{k} in half precision")
                elif k == "stress_stack" and s["only"]:
                    rec.close(g, w, rtol=1e-6, atol=1e-300, msg="stress in kPa")
                else:
                    rec.check(g.dtype == w.dtype, lambda: f"{k}: {g.dtype} instead of {w.dtype}")
                    rec.same(g, w, k)
            f = os.path.join(path, "parameters.json")
            if s["meta"] is None:
                rec.check(not os.path.exists(f), "metadata appeared")
            else:
                rec.check(json.load(open(f)) == plain(s["meta"]), "metadata differs")
            rec.check(os.listdir(root) == ["run.zarr"], "something was written beside the store")
            rec.label("half" if s["half"] else "full precision", "particles" if s["only"] else "whole state", f"batch {s['batch']}")
            if len(want) > 3 and any(np.ptp(w.astype(float)) > 0 for w in want.values() if w.size > 1):
                rec.nt()
    finally:
        shutil.rmtree(root, ignore_errors=True)
