"""C30: exported files and viewer entities hold the simulated data."""
import contextlib
import io
import shutil
import tempfile

import matplotlib.pyplot as plt
import pyvista as pv

import hydraxmpm.common.rerun as viewer_module
from hydraxmpm.common.rerun import RerunVisualizer
from hydraxmpm.common.vtk_io import VTKVisualizer

from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c20 as shapes

for _name in ("shapes", "shapes32", "cloud", "sampled"):
    PARTS.pop(_name, None)

RULE = ("A case is a sequence of exports (particle states of several labels and steps, a domain box) or an obstacle of any shape and pose "
        "with a sampling box. Non-trivial: two files of different labels or steps are written, or the surface crosses the sampling box.")
PROPS = ["velocity_stack", "position_stack", "mass_stack", "density_stack", "pressure_stack", "stress_stack", "F_stack", "L_stack", "force_stack", "volume_stack", "no_such_thing", None]
LABELS = ["material_points", "sand", "sim_0/particles", "b"]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def tree(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


# ------------------------------------------------------------------ particles and domain
@composite
def gen_particles(draw):
    out = []
    for i in range(integer(draw, 1, 4)):
        dim, n = pick(draw, 2, 3), pick(draw, 1, 2, 5)
        out.append(dict(dim=dim, n=n, data=arr(draw, (n, 40), -1, 1), scale=lognum(draw, 1.0, 1e6, 24), prop=pick(draw, "default", *PROPS), label=pick(draw, "default", *LABELS),
                        step=pick(draw, None, 0, 1, 7, 12345, 1234567), time=pick(draw, None, 0.0, 0.5, 1e-7, 123.25), r=pick(draw, 1.0, 2.0, 0.3), shrink=num(draw, 0.3, 1.7, 16), traced=boolean(draw)))
    return dict(states=out, lo=arr(draw, (3,), -5, 5), ext=arr(draw, (3,), 0.1, 4), h=lognum(draw, 1e-3, 1.0, 16), dim=pick(draw, 2, 3), label=pick(draw, "default", "walls", "sim_1/box"), relative=boolean(draw))


def state_of(s):
    d = np.array(s["data"], dtype=float) * s["scale"]
    n, dim = s["n"], s["dim"]
    x, v = d[:, :dim], d[:, 3:3 + dim]
    v0 = (np.abs(d[:, 6]) + 1e-3 * s["scale"]) ** dim
    t3 = lambda k: d[:, k:k + 9].reshape(n, 3, 3)
    vol = v0 * s["shrink"]
    kw = dict(position_stack=x, velocity_stack=v, force_stack=d[:, 7:7 + dim], mass_stack=np.abs(d[:, 10]) + 1, volume_stack=vol, volume0_stack=v0, stress_stack=t3(11), F_stack=t3(20), L_stack=t3(29))
    mp = hdx.MaterialPointState.create(**{k: A(a) for k, a in kw.items()})
    kw["pressure_stack"] = np.trace(kw["stress_stack"], axis1=1, axis2=2) / 3
    kw["density_stack"] = kw["mass_stack"] / vol
    return mp, kw, v0


def radius(v0, dim):
    return np.sqrt(v0 / np.pi) if dim == 2 else (v0 * 0.75 / np.pi) ** (1 / 3)


def pad(x):
    return np.concatenate([x, np.zeros((len(x), 3 - x.shape[1]))], 1)


@part(gen_particles(), quick=120, thorough=1500, shards=2)
def particles(case, rec):
    root = tempfile.mkdtemp(prefix="c30_")
    try:
        with quiet():
            writer = VTKVisualizer("out", relative_dir=os.path.join(root, "script.py")) if case["relative"] else VTKVisualizer(os.path.join(root, "out"))
        want = {}
        for s in case["states"]:
            mp, data, v0 = state_of(s)
            kw = {}
            if s["label"] != "default":
                kw["label"] = s["label"]
            if s["prop"] != "default":
                kw["property_name"] = s["prop"]
            if s["r"] != 1.0:
                kw["scale_radius"] = s["r"]
            if s["step"] is not None:
                kw["step"] = jnp.array(s["step"]) if s["traced"] else s["step"]
            if s["time"] is not None:
                kw["time"] = jnp.array(s["time"]) if s["traced"] else s["time"]
            with quiet():
                writer.log_particles(mp, **kw)
            label = "material_points" if s["label"] == "default" else s["label"]
            want[f"{label}/step_{s['step'] or 0:05d}.vtp"] = (s, data, v0)
        e = case["dim"]
        lo, ext = np.array(case["lo"])[:e], np.array(case["ext"])[:e]
        kw = {} if case["label"] == "default" else dict(label=case["label"])
        with quiet():
            writer.log_static_domain(tuple(lo.tolist()), tuple((lo + ext).tolist()), case["h"], **kw)
        box = ("domain" if case["label"] == "default" else case["label"]) + "/bounds.vtp"
        rec.check(tree(os.path.join(root, "out")) == sorted(list(want) + [box]), lambda: f"files {tree(os.path.join(root, 'out'))} instead of {sorted(list(want) + [box])}")
        rec.check(sorted(os.listdir(root)) == ["out"], "something was written outside the output folder")
        one = 1e-6
        for name, (s, data, v0) in want.items():
            m = pv.read(os.path.join(root, "out", name))
            x = data["position_stack"]
            rec.check(m.n_points == s["n"], f"{name}: number of points")
            rec.close(np.array(m.points), pad(x), rtol=one, scale=s["scale"], msg="positions in the file")
            prop = "velocity_stack" if s["prop"] == "default" else s["prop"]
            keys = set(m.point_data.keys())
            rec.check(keys == ({"Radius", prop} if prop in data else {"Radius"}), lambda: f"{name}: fields {keys} for property {prop}")
            if prop in data:
                w = data[prop]
                got = np.array(m.point_data[prop])
                if w.ndim == 3:
                    rec.check(got.size == w.size, "size of the tensor field")
                    got = got.reshape(w.shape)
                    if np.abs(got - w).max() > one * np.abs(w).max():
                        got = np.swapaxes(got, 1, 2)      # VTK numbers tensor components column by column
                    rec.close(got, w, rtol=one, scale=np.abs(w).max(), msg=f"{prop} in the file")
                else:
                    w = pad(w) if w.ndim == 2 else w
                    rec.check(got.shape == w.shape, lambda: f"{prop} has shape {got.shape} in the file")
                    rec.close(got, w, rtol=one, scale=np.abs(w).max(), msg=f"{prop} in the file")
            rec.close(np.array(m.point_data["Radius"]), s["r"] * radius(v0, s["dim"]), rtol=10 * one, msg="radius in the file")
            rec.check(("TimeValue" in m.field_data.keys()) == (s["time"] is not None), "time is stored when given, and only then")
            if s["time"] is not None:
                rec.close(np.array(m.field_data["TimeValue"]), [s["time"]], rtol=one, msg="time in the file")
            rec.label(f"{s['dim']}D {prop}")
        m = pv.read(os.path.join(root, "out", box))
        b = np.array(m.bounds).reshape(3, 2)
        top = lo + ext + case["h"]
        rec.close(b[:e, 0], lo, rtol=one, scale=10, msg="lower corner of the box")
        rec.close(b[:e, 1], top, rtol=one, scale=10, msg="upper corner of the box")
        rec.check(m.n_points >= 4 and len(np.unique(np.round(np.array(m.points), 5), axis=0)) == 8, "the box has eight corners")
        if len(want) > 1:
            rec.nt()
    finally:
        shutil.rmtree(root)


# ------------------------------------------------------------------ obstacle surfaces
SHAPES = [s for s in shapes.SHAPES if s[0] not in ("union",)] + [("union", 2), ("union", 3)]


@composite
def gen_surface(draw):
    kind, dim = pick(draw, *SHAPES)
    s = shapes.draw_shape(draw, kind, dim)
    c = s["scale"]
    com = c * np.array(arr(draw, (dim,), -4, 4)) * pick(draw, 1.0, 1.0, 8.0)
    mid = com + c * np.array(arr(draw, (dim,), -0.5, 0.5))
    half = c * np.array(arr(draw, (dim,), 0.6, 2.0))
    if kind == "domain":
        lo, hi = np.array(s["size"][0]), np.array(s["size"][1])
        mid, half, com = (lo + hi) / 2, (hi - lo) * num(draw, 0.55, 0.9, 8), np.zeros(dim)
    return dict(shape=s, dim=dim, com=com.tolist(), angle=num(draw, -4, 4) if dim == 2 else arr(draw, (4,), -1, 1), lo=(mid - half).tolist(), hi=(mid + half).tolist(), n=pick(draw, 60, 24, 100, 200) if dim == 2 else pick(draw, 24, 32),
                to=pick(draw, "file", "viewer"), label=pick(draw, "default", "wall"), step=pick(draw, None, 0, 42), time=pick(draw, None, 0.25), static=boolean(draw), probes=arr(draw, (40, 2 * dim), 0, 1))


def pose(case):
    s, dim = case["shape"], case["dim"]
    logic = shapes.build(s)
    com = np.array(case["com"])
    if s["kind"] == "domain":
        return logic, logic.create_state(center_of_mass=A(com)), (lambda x: shapes.local(s, x))
    R = shapes.rotation(case, dim)
    rot = A(case["angle"]) if dim == 2 else A(shapes.quaternion(case["angle"]))
    return logic, logic.create_state(center_of_mass=A(com), rotation=rot), (lambda x: shapes.local(s, (x - com) @ R))


@contextlib.contextmanager
def recorded():
    """stands in for the connection to the viewer"""
    calls, old = [], viewer_module.rr.log
    viewer_module.rr.log = lambda path, *entity, **kw: calls.append((path, entity, kw))
    try:
        yield calls
    finally:
        viewer_module.rr.log = old


def values(batch):
    a = batch.as_arrow_array().to_pylist()
    return a


@part(gen_surface(), quick=70, thorough=1200, shards=2)
def surfaces(case, rec):
    dim, c = case["dim"], case["shape"]["scale"]
    logic, state, dist = pose(case)
    lo, hi = np.array(case["lo"]), np.array(case["hi"])
    step = 1.06 * (hi - lo).max() / case["n"]
    label = "boundary" if case["label"] == "default" else case["label"]
    kw = {} if case["label"] == "default" else dict(label=label)
    if dim != 2 or case["n"] != 100:
        kw["resolution"] = case["n"]
    start, end = tuple(lo.tolist()), tuple(hi.tolist())
    normals = None
    if case["to"] == "file":
        root = tempfile.mkdtemp(prefix="c30_")
        try:
            with quiet():
                VTKVisualizer(root).log_sdf(logic, state, start, end, step=case["step"], time=case["time"], **kw)
            name = f"{label}/" + ("static.vtp" if case["step"] is None else f"step_{case['step']:05d}.vtp")
            files = tree(root)
            rec.check(files in ([name], []), lambda: f"files {files} instead of {name}")
            pts = np.zeros((0, dim))
            if files:
                m = pv.read(os.path.join(root, name))
                pts = np.array(m.points, dtype=float)
                rec.check(("TimeValue" in m.field_data.keys()) == (case["time"] is not None), "time is stored when given, and only then")
                if dim == 2:
                    rec.check(not np.abs(pts[:, 2]).any(), "plane surfaces have zero third coordinate")
                    cells = m.lines
                else:
                    cells = m.faces
                    normals = np.array(m.point_data["normals"])
                k, segs = 0, []
                while k < len(cells):
                    q = list(cells[k + 1:k + 1 + cells[k]])
                    segs += list(zip(q[:-1], q[1:])) if dim == 2 else [(q[0], q[1]), (q[1], q[2]), (q[2], q[0])]
                    k += 1 + cells[k]
                segs = np.array(segs)
        finally:
            shutil.rmtree(root)
    else:
        with recorded() as calls, quiet():
            RerunVisualizer(mode="off", root_path="root").log_sdf(logic, state, start=start, end=end, static=case["static"], **kw)
        rec.check(len(calls) <= 1 and all(p == f"root/{label}" and k.get("static", False) == case["static"] for p, _, k in calls), lambda: f"entity path or timing {calls[0][0], calls[0][2]}")
        pts, segs = np.zeros((0, dim)), np.zeros((0, 2), int)
        if calls and dim == 2:
            strips = [np.array(q, dtype=float) for q in values(calls[0][1][0].strips)]
            segs = np.array([(i + o, i + 1 + o) for q, o in zip(strips, np.cumsum([0] + [len(q) for q in strips])) for i in range(len(q) - 1)]).reshape(-1, 2)
            if strips:
                pts = np.concatenate(strips) * [1, -1]          # the viewer's second axis points down
        elif calls:
            e = calls[0][1][0]
            pts = np.array(values(e.vertex_positions), dtype=float)
            normals = np.array(values(e.vertex_normals), dtype=float)
            f = np.array(values(e.triangle_indices))
            segs = np.concatenate([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]])
    pts = pts[:, :dim]
    rec.label(f"{case['to']} {case['shape']['kind']} {dim}D")
    slack = 1e-5 * (np.abs(pts).max(initial=0) + c)
    if len(pts):
        rec.nt()
        d = np.abs(dist(pts))
        rec.check(d.max() <= step + slack, lambda: f"a point of the exported surface is {d.max() / step:.3g} sampling steps away from the obstacle's surface")
        rec.check(d.mean() <= 0.3 * step + slack, lambda: f"the exported surface is {d.mean() / step:.3g} sampling steps away from the obstacle's surface on average")
        low, top = pts.min(0), pts.max(0)
        rec.check((low >= lo - slack).all() and (top <= hi + 0.06 * (hi - lo).max() + 1.1 * step + slack).all(), "the exported surface leaves the requested box")
        ln = np.sqrt(((pts[segs[:, 0]] - pts[segs[:, 1]]) ** 2).sum(-1))
        rec.check(ln.max() <= np.sqrt(dim) * step + slack, lambda: f"edges of the exported surface span {ln.max() / step:.3g} sampling steps")
    # no part of the surface is missing
    u = np.array(case["probes"])
    for i in range(20):                                   # half of the probes run along the far faces of the box
        u[i, i % dim] = u[i, dim + i % dim] = 1 - 0.015 * u[i, i % dim]
    a, b = lo + u[:, :dim] * (hi - lo), lo + u[:, dim:] * (hi - lo)
    da, db = dist(a), dist(b)
    far = (da * db < 0)
    a, b, sgn = a[far], b[far], np.sign(da[far])
    if len(a):
        p, q = a.copy(), b.copy()
        for _ in range(50):
            m = 0.5 * (p + q)
            same = np.sign(dist(m)) == sgn
            p, q = np.where(same[:, None], m, p), np.where(same[:, None], q, m)
        x = 0.5 * (p + q)
        g = np.zeros_like(x)
        for k in range(dim):
            e = np.zeros(dim)
            e[k] = 1e-5 * c
            g[:, k] = dist(x + e) - dist(x - e)
        g = g / (np.sqrt((g ** 2).sum(-1, keepdims=True)) + 1e-300)
        w = 2.5 * step
        ok = (dist(x + w * g) > 0.9 * step * np.sqrt(dim)) & (dist(x - w * g) < -0.9 * step * np.sqrt(dim))
        s_ = step * 1.05 / 1.06
        ok &= ((x - 1.5 * step >= lo) & (x <= hi) & (x <= lo + 1.05 * (hi - lo) - 2.5 * s_)).all(-1)      # the samples start at lo and reach five per cent beyond hi
        for y, n in zip(x[ok], g[ok]):
            r = np.sqrt(((pts - y) ** 2).sum(-1)).min() if len(pts) else np.inf
            rec.check(r <= 3 * step + slack, lambda: f"the obstacle's surface at {y.tolist()} is missing from the export (nearest point {r / step:.3g} sampling steps away)")
    if normals is not None and len(pts) > 20 and case["shape"]["kind"] in ("sphere", "torus") and c * 0.1 > step * 0.5:
        e = 1e-4 * c
        g = np.stack([dist(pts + e * np.eye(3)[k]) - dist(pts - e * np.eye(3)[k]) for k in range(3)], -1)
        ln = np.sqrt((g ** 2).sum(-1))
        good = (np.abs(ln / (2 * e) - 1) < 1e-2) & ((pts > lo + 2 * step) & (pts < hi - 2 * step)).all(-1)
        if case["shape"]["kind"] == "sphere":
            good &= case["shape"]["size"][0] > 3 * step
        else:
            good &= min(case["shape"]["size"][1], case["shape"]["size"][0] - case["shape"]["size"][1]) > 3 * step
        if good.any():
            cos = (normals * g).sum(-1)[good] / ln[good] / np.sqrt((normals ** 2).sum(-1))[good]
            rec.check(np.abs(cos).min() > 0.8 and len(set(np.sign(cos))) == 1, lambda: f"normals of the exported surface deviate from the surface normals (cosines {cos.min():.3g} to {cos.max():.3g})")
            rec.label("normals checked")


# ------------------------------------------------------------------ viewer
@composite
def gen_viewer(draw):
    c = draw(gen_particles())
    s = c["states"][0]
    n = s["n"]
    c["state"] = s
    c["color"] = pick(draw, None, None, None, [255, 165, 0], "each")
    c["range"] = pick(draw, None, None, [0.0, 0.5], [None, 1.0], [-1.0, None])
    c["ties"] = integer(draw, 0, 3) == 0
    c["map"] = pick(draw, None, "viridis")
    c["prop"] = pick(draw, "default", "velocity_stack", "mass_stack", "pressure_stack", "stress_stack", "position_stack", "no_such_thing")
    c["clock"] = [integer(draw, 0, 100000), num(draw, 0, 100, 64)]
    del c["states"]
    return c


def rgba(v):
    return np.stack([(v >> 24) & 255, (v >> 16) & 255, (v >> 8) & 255, v & 255], -1)


@part(gen_viewer(), quick=60, thorough=1000, shards=2)
def viewer(case, rec):
    s = case["state"]
    if case["ties"]:
        s = dict(s, data=[s["data"][0]] * s["n"])
    mp, data, v0 = state_of(s)
    n, dim = s["n"], s["dim"]
    kw = {} if case["label"] == "default" else dict(label=case["label"])
    if case["prop"] != "default":
        kw["property_name"] = case["prop"]
    if case["color"] == "each":
        kw["color"] = np.stack([np.arange(n) * 10, 200 - np.arange(n), np.arange(n) + 3], -1).astype(np.uint8)
    elif case["color"]:
        kw["color"] = case["color"]
    if case["map"]:
        kw["cmap"] = plt.get_cmap(case["map"])
    rng = case["range"] or [None, None]
    rng = [None if q is None else q * s["scale"] for q in rng]
    kw.update({k: q for k, q in zip(("v_min", "v_max"), rng) if q is not None})
    if s["r"] != 1.0:
        kw["scale_radius"] = s["r"]
    e = case["dim"]
    lo, ext = np.array(case["lo"])[:e], np.array(case["ext"])[:e]
    with recorded() as calls, quiet():
        v = RerunVisualizer(mode="off", root_path="Sim_B")
        v.log_time(current_step=case["clock"][0], current_time=case["clock"][1])
        v.log_material_points(mp, **kw)
        v.log_static_domain(origin=tuple(lo.tolist()), end=tuple((lo + ext).tolist()), cell_size=case["h"])
    rec.check([q[0] for q in calls] == ["Sim_B/" + kw.get("label", "material_points"), "Sim_B/domain"], "entity paths")
    cloud = calls[0][1][0]
    x = np.array(values(cloud.positions), dtype=float)
    want = data["position_stack"] * ([1, -1] if dim == 2 else 1)
    rec.check(x.shape == (n, dim), "number of points in the viewer")
    rec.close(x, want, rtol=1e-6, scale=s["scale"], msg="positions in the viewer")
    rec.close(np.array(values(cloud.radii)), s["r"] * radius(v0, dim), rtol=1e-5, msg="radii in the viewer")
    rec.nt(n > 1)
    col = rgba(np.array(values(cloud.colors), dtype=np.int64))
    prop = "velocity_stack" if case["prop"] == "default" else case["prop"]
    if case["color"] == "each":
        rec.check((col[:, :3] == kw["color"]).all(), "given colours")
    elif case["color"]:
        rec.check(col.shape[0] in (1, n) and (col[:, :3] == np.array(case["color"])).all(), "given colour")
    elif prop not in data:
        rec.check((col[:, :3] == 200).all(), "grey without data")
    else:
        w = data[prop]
        w = np.sqrt((w.reshape(n, -1) ** 2).sum(-1)) if w.ndim > 1 else w
        a, b = w.min() if rng[0] is None else rng[0], w.max() if rng[1] is None else rng[1]
        if (b - a < 2e-6) or (b - a) < 1e-4 * np.abs(w).max():
            rec.label("hardly any range")
        else:
            t = (w - a) / (b - a)
            f = kw.get("cmap") or plt.get_cmap("turbo")
            near = np.array([f(t + k)[:, :3] * 255 for k in (-5e-3, 0, 5e-3)])
            rec.check(((col[:, :3] >= near.min(0) - 2) & (col[:, :3] <= near.max(0) + 2)).all(), lambda: f"colours {col[:, :3].tolist()} for values {w.tolist()} between {a} and {b}")
            rec.label("colours")
            if n > 1:
                rec.nt()
    box, opts = calls[1][1][0], calls[1][2]
    mid, half = np.array(values(box.centers), dtype=float)[0], np.abs(np.array(values(box.half_sizes), dtype=float)[0])
    flip = np.array([1, -1] if e == 2 else [1, 1, 1])
    rec.close(mid, (lo + 0.5 * (ext + case["h"])) * flip, rtol=1e-6, scale=10, msg="centre of the domain box in the viewer")
    rec.close(half, 0.5 * (ext + case["h"]), rtol=1e-6, scale=10, msg="size of the domain box in the viewer")
    rec.check(opts.get("static") is True, "the domain box is timeless")
