"""C06: results do not depend on ordering, grid placement or frame."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *
from lib.scenes import *

RULE = ("A case is a scene of one or two bodies with a material law, forces and obstacles, together with a relabelling "
        "(permutation of particles, shift of the whole scene, shift by whole cells inside one grid, mirror or exchange of "
        "axes, added velocity); both scenes run several steps and must agree after mapping. Non-trivial: at least two "
        "particles share nodes and the relabelling is not the identity.")
ASSUMPTIONS = ["float64; agreement to 1e-6 of the field scale (rounding grows slowly over the few steps compared)"]

def group(dim):
    """Signed permutation matrices."""
    import itertools
    out = []
    for p in itertools.permutations(range(dim)):
        for s in itertools.product((1, -1), repeat=dim):
            Q = np.zeros((dim, dim))
            for i in range(dim):
                Q[i, p[i]] = s[i]
            out.append(Q.tolist())
    return out


def pad_q(Q, dim):
    Q3 = np.eye(3)
    Q3[:dim, :dim] = Q
    return Q3


def transform(case, Q, t):
    """The same scene in mapped coordinates x' = Q x + t."""
    Q, t = np.asarray(Q, float), np.asarray(t, float)
    dim = len(t)
    Q3, det = pad_q(Q, dim), np.linalg.det(Q)
    g = case["grid"]
    lo, hi = np.array(g["origin"]), np.array(grid_end(g))
    a, b = Q @ lo + t, Q @ hi + t
    new = dict(case)
    new["grid"] = dict(origin=np.minimum(a, b).tolist(), cells=[int(round(v)) for v in np.abs(Q) @ np.array(g["cells"])], h=g["h"])
    new["bodies"] = []
    for body in case["bodies"]:
        nb = dict(body)
        nb["pos"] = (np.array(body["pos"]) @ Q.T + t).tolist()
        nb["vel"] = (np.array(body["vel"]) @ Q.T).tolist()
        for k in ("stress", "Bp", "F"):
            if k in body:
                nb[k] = (Q3 @ np.array(body[k]) @ Q3.T).tolist()
        new["bodies"].append(nb)
    new["gravity"] = (Q @ np.array(case["gravity"])).tolist()
    new["obstacles"] = []
    for o in case["obstacles"]:
        no = dict(o, com=(Q @ np.array(o["com"]) + t).tolist(), vel=(Q @ np.array(o["vel"])).tolist(),
                  omega=(det * Q3 @ np.array(o["omega"])).tolist() if dim == 3 else (det * np.array(o["omega"])).tolist())
        if "normal" in o:
            no["normal"] = (Q @ np.array(o["normal"])).tolist()
        new["obstacles"].append(no)
    return new


def compare(rec, case, s1, s2, Q, t, perms=None, dv=None, tag="", rtol=1e-6):
    """s2 must be s1 in mapped coordinates."""
    dim, h = case["cfg"]["dim"], case["grid"]["h"]
    Q, t = np.asarray(Q, float), np.asarray(t, float)
    Q3 = pad_q(Q, dim)
    dv = np.zeros(dim) if dv is None else dv
    # nodes lighter than the mass cut-off (1e-12) stay at rest instead of carrying dv
    cut = 3e-12 / min(min(b["mass"]) for b in case["bodies"]) * np.abs(dv).max()
    cutL = cut * 3e3 / h
    cutF = cutL * case["dt"] * case["steps"]
    for i in range(len(case["bodies"])):
        a, b = state_of(s1, i), state_of(s2, i)
        p = np.arange(len(a["mass"])) if perms is None else np.array(perms[i])
        tens = lambda x: (Q3 @ x @ Q3.T)[p]
        Fsc = max(1.0, np.abs(a["F"]).max())
        spd = np.abs(a["vel"]).max() + 0.1 + np.abs(dv).max() * 1e-3
        rec.close(b["pos"], (a["pos"] @ Q.T + t)[p], rtol=rtol, scale=h * 0.1 + np.abs(t).max() * 1e-6, msg=f"{tag}position", atol=cut * case["dt"] * case["steps"])
        rec.close(b["vel"], (a["vel"] @ Q.T + dv)[p], rtol=rtol, scale=spd, msg=f"{tag}velocity", atol=cut)
        rec.close(b["F"], tens(a["F"]), rtol=rtol, scale=Fsc, msg=f"{tag}deformation gradient", atol=3 * cutF)
        rec.close(b["L"], tens(a["L"]), rtol=rtol, scale=np.abs(a["L"]).max() + spd / h, msg=f"{tag}velocity gradient", atol=cutL)
        rec.close(b["stress"], tens(a["stress"]), rtol=rtol, scale=np.abs(a["stress"]).max() + 100.0, msg=f"{tag}stress", atol=1e6 * cutF)
        rec.close(b["vol"], a["vol"][p], rtol=rtol + 9 * cutF, msg=f"{tag}volume")
        rec.close(b["mass"], a["mass"][p], rtol=1e-12, msg=f"{tag}mass")
        if "Bp" in a:
            rec.close(b["Bp"], tens(a["Bp"]), rtol=rtol, scale=np.abs(a["Bp"]).max() + spd / h, msg=f"{tag}affine state", atol=cutL)


def usable(rec, s1, case):
    for i in range(len(case["bodies"])):
        for k, v in state_of(s1, i).items():
            if not np.all(np.isfinite(v)):
                return False
        d = state_of(s1, i)
        x0 = np.array(case["bodies"][i]["pos"])
        if np.abs(d["pos"] - x0).max() > 1.2 * case["grid"]["h"] or np.abs(d["vel"]).max() > 100 or np.abs(d["stress"]).max() > 1e6:
            return False   # arbitrary data may be violently out of balance: rounding is amplified without bound
    return True


BASE = dict(dim=[2, 3], kernel=list(KERNELS), scheme=list(SCHEMES), law=LAWS, n=[6, 2, 9], bodies=["one", "shared", "separate"],
            forces=[["gravity"], [], ["damping"], ["gravity_p", "damping"]], obstacles=[[], ["sphere"], ["plane"], ["plane", "sphere"]],
            alpha=[0.99, 0.5], mls=[True, False], dyn=[True, False], reset=[False, True], h=[1.0, 0.25])
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
FRAME = pool(140 if THOROUGH else 14, seed=6, kind=["mirror", "swap", "swap", "shift"], **BASE)
LOCAL = pool(105 if THOROUGH else 14, seed=7, kind=["permute", "cells", "permute"], **BASE)
GALI = [dict(c, obstacles=[], forces=[f for f in c["forces"] if f != "damping"]) for c in pool(84 if THOROUGH else 14, seed=8, **BASE)]


@composite
def gen_frame(draw):
    c = pick(draw, *share(FRAME))
    case = draw_scene(draw, c)
    dim, g = c["dim"], case["grid"]
    k = FRAME.index(c)
    G = group(dim)
    if c["kind"] == "shift":
        Q = np.eye(dim)
        t = np.array([3.0, -7.3, 0.77][:dim]) * (1 if k % 2 else 100)
    else:
        cand = [q for q in G if (np.abs(np.diag(q)).sum() == dim) == (c["kind"] == "mirror") and not np.allclose(q, np.eye(dim))]
        Q = np.array(cand[(7 * k) % len(cand)])
        mid = np.array(g["origin"]) + 0.5 * g["h"] * np.array(g["cells"])
        t = mid - Q @ mid
    case.update(Q=Q.tolist(), t=t.tolist())
    return case


@part(gen_frame, quick=210, thorough=4200, shards=7)
def frame(case, rec):
    """shifting the scene with its grid, mirroring and exchanging axes map the results"""
    s1 = result(case)
    if not usable(rec, s1, case):
        rec.label("unstable")
        return
    s2 = result(transform(case, case["Q"], case["t"]))
    compare(rec, case, s1, s2, case["Q"], case["t"])
    rec.nt(len(case["bodies"][0]["mass"]) > 1)
    c = case["cfg"]
    rec.label(c["kind"], c["law"], c["scheme"], c["kernel"], f"{c['dim']}d", "+".join(c["obstacles"]) or "no obstacle")


@composite
def gen_local(draw):
    c = pick(draw, *share(LOCAL))
    case = draw_scene(draw, c)
    dim = c["dim"]
    if c["kind"] == "permute":
        case["perms"] = [list(draw(st.permutations(range(len(b["mass"]))))) for b in case["bodies"]]
    else:
        case["cells"] = [pick(draw, 1, -1, 0) for _ in range(dim)]
    return case


@part(gen_local, quick=210, thorough=4200, shards=7)
def relabel(case, rec):
    """permuting particles, and moving everything by whole cells inside one grid, relabel the results"""
    c = case["cfg"]
    dim, h = c["dim"], c["h"]
    s1 = result(case)
    if not usable(rec, s1, case):
        rec.label("unstable")
        return
    if c["kind"] == "permute":
        new = dict(case, bodies=[{k: np.asarray(v)[p].tolist() for k, v in b.items()} for b, p in zip(case["bodies"], case["perms"])])
        s2 = result(new)
        compare(rec, case, s1, s2, np.eye(dim), np.zeros(dim), perms=case["perms"])
        rec.nt(any(list(p) != sorted(p) for p in case["perms"]))
    else:
        t = h * np.array(case["cells"], float)
        new = transform(case, np.eye(dim), t)
        new["grid"] = case["grid"]
        s2 = result(new)
        compare(rec, case, s1, s2, np.eye(dim), t)
        rec.nt(any(case["cells"]))
    rec.label(c["kind"], c["law"], c["scheme"], c["kernel"], f"{dim}d", "+".join(c["obstacles"]) or "no obstacle")


@composite
def gen_gali(draw):
    c = pick(draw, *share(GALI))
    case = draw_scene(draw, c)
    case["cfl"] = 1e4
    case["V"] = (10.0 * np.asarray(arr(draw, (c["dim"],), -1, 1))).tolist()
    case["cells"] = [pick(draw, 1, -1, 0) for _ in range(c["dim"])]
    case["multi"] = boolean(draw)
    return case


@part(gen_gali, quick=180, thorough=3600, shards=7)
def galilean(case, rec):
    """an added constant velocity is carried along: one step for any velocity, several for whole cells per step"""
    c = case["cfg"]
    dim, h, dt = c["dim"], c["h"], case["dt"]
    V = np.array(case["cells"], float) * h / dt if case["multi"] else np.array(case["V"])
    steps = min(case["steps"], 2) if case["multi"] else 1
    s1 = result(case, steps)
    if not usable(rec, s1, case):
        rec.label("unstable")
        return
    new = dict(case, bodies=[dict(b, vel=(np.array(b["vel"]) + V).tolist()) for b in case["bodies"]])
    s2 = result(new, steps)
    compare(rec, case, s1, s2, np.eye(dim), steps * V * dt, dv=V)
    rec.nt(np.any(V != 0))
    rec.label("multi" if case["multi"] else "single", c["law"], c["scheme"], c["kernel"], f"{dim}d")
