"""C20: signed distances and normals describe the advertised shapes."""
import tempfile

from hydraxmpm.sdf.gridsdf import GridSDF
from hydraxmpm.sdf.sdfcollection import CompositeSDF

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a shape with sizes, a position, an orientation and 16 points (general, on the surface, at edges and corners, on "
        "symmetry axes, at the centre, far away). Non-trivial: some points are inside and some outside, and the shape is moved or rotated.")
NP = 16
DIRS = {d: np.array([v for v in np.ndindex(*(3,) * d) if any(np.array(v) != 1)], dtype=float) - 1 for d in (2, 3)}

SHAPES = [("box", 2), ("box", 3), ("sphere", 2), ("sphere", 3), ("plane", 2), ("plane", 3), ("capsule", 2), ("capsule", 3), ("ring", 2), ("walls", 2),
          ("pipe", 3), ("cylinder", 3), ("torus", 3), ("star3", 2), ("star5", 2), ("star8", 2), ("domain", 2), ("domain", 3), ("union", 2), ("union", 3)]


# ------------------------------------------------------------------ reference distances
def profile(u, lo, hi):
    """signed distance in the plane to the rectangle lo..hi, from its closest boundary point"""
    u = np.asarray(u, dtype=float)
    c = np.clip(u, lo, hi)
    out = np.sqrt(((u - c) ** 2).sum(-1))
    inside = np.all((u > lo) & (u < hi), axis=-1)
    depth = np.min(np.concatenate([u - lo, hi - u], axis=-1), axis=-1)
    return np.where(inside, -depth, out)


def segment(p, a, b):
    t = np.clip(((p - a) @ (b - a)) / ((b - a) @ (b - a)), 0, 1)
    return np.sqrt(((p - a - t[:, None] * (b - a)) ** 2).sum(-1))


def star_polygon(n, ro, ri):
    k = np.arange(2 * n)
    r = np.where(k % 2 == 0, ro, ri)
    ang = np.pi * k / n                       # measured from the +y axis
    return np.stack([r * np.sin(ang), r * np.cos(ang)], -1)


def polygon(p, v):
    d = np.min([segment(p, v[i], v[(i + 1) % len(v)]) for i in range(len(v))], axis=0)
    wind = np.zeros(len(p))
    for i in range(len(v)):
        a, b = v[i] - p, v[(i + 1) % len(v)] - p
        wind += np.arctan2(a[:, 0] * b[:, 1] - a[:, 1] * b[:, 0], (a * b).sum(-1))
    return np.where(np.abs(wind) > np.pi, -d, d)


def local(s, p):
    """reference signed distance in the shape's own frame"""
    k, a = s["kind"], s["size"]
    if k == "box":
        h = 0.5 * np.array(a)
        c = np.clip(p, -h, h)
        return np.where(np.all(np.abs(p) < h, axis=-1), -np.min(h - np.abs(p), axis=-1), np.sqrt(((p - c) ** 2).sum(-1)))
    if k == "sphere":
        return np.sqrt((p ** 2).sum(-1)) - a[0]
    if k == "plane":
        n = np.array(a)
        return p @ n / np.sqrt(n @ n)
    if k == "capsule":
        e = np.zeros(p.shape[1])
        e[1] = 0.5 * a[1]
        return segment(p, -e, e) - a[0]
    if k == "ring":
        r = np.sqrt((p ** 2).sum(-1))
        return np.abs(r - 0.5 * (a[1] + a[2])) - 0.5 * (a[1] - a[2])
    if k in ("walls", "pipe"):
        r = np.abs(p[:, 0]) if k == "walls" else np.hypot(p[:, 0], p[:, 2])
        return profile(np.stack([r, p[:, 1]], -1), np.array([a[2], -a[0] / 2]), np.array([a[1], a[0] / 2]))
    if k == "cylinder":
        r = np.hypot(p[:, 0], p[:, 2])
        return profile(np.stack([r, p[:, 1]], -1), np.array([-a[0], -a[1] / 2]), np.array([a[0], a[1] / 2]))
    if k == "torus":
        return np.hypot(np.hypot(p[:, 0], p[:, 2]) - a[0], p[:, 1]) - a[1]
    if k.startswith("star"):
        return polygon(p, star_polygon(int(k[4:]), a[0], a[1]))
    if k == "domain":
        lo, hi = np.array(a[0]), np.array(a[1])
        return np.min(np.concatenate([p - lo, hi - p], -1), -1)
    if k == "union":
        return np.min([local(q, p) for q in s["parts"]], axis=0)
    raise HarnessError(k)


def build(s):
    k, a = s["kind"], s["size"]
    if k == "box":
        return hdx.BoxSDF(A(a))
    if k == "sphere":
        return hdx.SphereSDF(a[0])
    if k == "plane":
        return hdx.PlaneSDF(A(a))
    if k == "capsule":
        return hdx.CapsuleSDF(a[0], a[1])
    if k in ("ring", "walls", "pipe"):
        return hdx.HollowCylinderSDF(a[0], a[1], a[2], is_2d_ring=k == "ring")
    if k == "cylinder":
        return hdx.CylinderSDF(a[0], a[1])
    if k == "torus":
        return hdx.TorusSDF(a[0], a[1])
    if k.startswith("star"):
        return hdx.StarSDF(int(k[4:]), a[0], a[1])
    if k == "domain":
        return hdx.DomainSDF(A(a[0]), A(a[1]), frictions=s["frictions"])
    if k == "union":
        return CompositeSDF([build(q) for q in s["parts"]], A(s["frictions"]))


def rotation(case, dim):
    return rot2(case["angle"]) if dim == 2 else rotation3(case["angle"])


def quaternion(q):
    q = np.asarray(q, dtype=float) + np.array([1e-9, 0, 0, 0])
    return q / np.sqrt(q @ q)


def draw_shape(draw, kind, dim):
    c = lognum(draw, 0.05, 20.0, 32)
    f = np.array(arr(draw, (4,), 0.1, 1.0))
    s = dict(kind=kind)
    if kind == "box":
        s["size"] = (2 * c * f[:dim]).tolist()
    elif kind == "plane":
        long = pick(draw, 3 * c, 3 * c, 1.0 + 1e-3 * f[3], 1.0 - 1e-4 * f[3], lognum(draw, 1e-4, 1e4, 32))      # also nearly of unit length, tiny and huge
        n = unit_vector(arr(draw, (dim,), -1, 1)) * long
        if boolean(draw):          # along an axis
            k = int(np.argmax(np.abs(n)))
            n = np.eye(dim)[k] * np.sign(n[k]) * long
        s["size"] = n.tolist()
    elif kind == "torus":
        s["size"] = [c, c * float(f[0]) * 0.9]
    elif kind in ("ring", "walls", "pipe"):
        s["size"] = [2 * c * float(f[0]), c, c * float(f[1]) * 0.9]
    elif kind.startswith("star"):
        n = int(kind[4:])
        s["size"] = [c, c * float(f[0]) * 0.98]
    elif kind == "domain":
        o = c * np.array(arr(draw, (dim,), -2, 2))
        s["size"] = [o.tolist(), (o + 2 * c * f[:dim]).tolist()]
        s["frictions"] = pick(draw, 0.5, 0.0, (np.array(arr(draw, (2 * dim,), 0, 1))).tolist())
    elif kind == "union":
        kinds = ["box", "sphere", "capsule"] if dim == 2 else ["torus", "sphere", "cylinder"]
        s["size"] = [c]
        s["parts"] = []
        for k in kinds:
            q = draw_shape(draw, k, dim)
            q["size"] = (np.array(q["size"]) * c / np.max(np.abs(q["size"]))).tolist()
            s["parts"].append(q)
        s["frictions"] = ((np.array(arr(draw, (3,), 0, 1)) * 0.9 + 0.05) * np.array([pick(draw, 1, 1, 0) for _ in range(3)])).tolist()
    else:
        s["size"] = [c * float(f[0]), 2 * c * float(f[1])]
    s["scale"] = c
    return s


@composite
def gen(draw):
    kind, dim = pick(draw, *share(SHAPES))
    s = draw_shape(draw, kind, dim)
    c = s["scale"]
    case = dict(shape=s, dim=dim, com=(c * np.array(arr(draw, (dim,), -3, 3))).tolist(),
                angle=num(draw, -7, 7) if dim == 2 else arr(draw, (4,), -1, 1))
    pts = 1.6 * np.array(arr(draw, (NP, dim), -1, 1))
    grid = [0, 0.5, 1.0]
    k = integer(draw, 0, NP)
    # some points on axes, corners and other special places of the shape's own frame
    snap = np.round(pts * 2) / 2
    pts = np.where((np.arange(NP) % 3 == 0)[:, None], snap, pts)
    pts[1] = 0.0
    pts[2, 1:] = 0.0
    pts[4] *= 20
    case["points"] = pts.tolist()
    case["onto"] = integer(draw, 0, 2)
    return case


@eqx.filter_jit
def evaluate(logic, state, pos):
    return (logic.get_signed_distance_stack(state, pos), logic.get_normal_stack(state, pos), logic.get_surface_friction_stack(state, pos))


@part(gen, quick=1600, thorough=60000, shards=6)
def shapes(case, rec):
    """distance, normal and friction at every point against closest-point references"""
    s, dim = case["shape"], case["dim"]
    k = s["kind"]
    R = rotation(case, dim)
    com = np.array(case["com"])
    c = s["scale"]
    p = np.array(case["points"]) * c
    if k == "domain":
        com = 0.5 * (np.array(s["size"][0]) + np.array(s["size"][1]))
        R = np.eye(dim)
        p = p + com
    # some points moved onto the surface
    def grad(q, e):
        g = np.zeros_like(q)
        for d in range(dim):
            h = np.zeros(dim)
            h[d] = e
            g[:, d] = (local(s, q + h) - local(s, q - h)) / (2 * e)
        return g
    for i in range(case["onto"]):
        j = 5 + i
        g = grad(p[j:j + 1], 1e-6 * c)
        p[j] = p[j] - local(s, p[j:j + 1]) * g[0]
    want = local(s, p)
    world = p if k == "domain" else com + p @ R.T
    with quiet():
        logic = build(s)
        st = logic.create_state(A(com), rotation=(A(case["angle"]) if dim == 2 else A(quaternion(case["angle"]))) if k != "domain" else None)
    if k == "domain":
        b = hdx.SimBuilder()
        b.add_sdf_object(sdf_logic=logic)
        rec.close(N(b.sdf_states[0].center_of_mass), com, rtol=1e-6, scale=1 + np.abs(com).max(), msg="default centre of a container")
    d, n, f = evaluate(arrayify(logic), arrayify(st), A(world))
    d, n, f = N(d), N(n), N(f)
    sc = c + np.abs(world).max() + np.abs(com).max()
    rec.close(d, want, rtol=1e-9 if X64 else 4e-6, scale=sc, atol=5e-6, msg=f"{k} distance")
    rec.finite(n, f"{k} normal")
    rec.le(np.sqrt((n ** 2).sum(-1)), 1.0, tol=1e-6, msg="normal longer than one")
    # smooth points: unit gradient, and no kink along any of the grid directions
    g1 = grad(p, 1e-5 * c)
    smooth = np.abs(np.sqrt((g1 ** 2).sum(-1)) - 1) < 1e-3
    for h in DIRS[dim] * 1e-4 * c:
        smooth &= np.abs(local(s, p + h) + local(s, p - h) - 2 * local(s, p)) < 2e-6 * c
    gw = g1 if k == "domain" else g1 @ R.T
    if not X64:
        # rounding moves the point: keep away from kinks by more than that
        for h in DIRS[dim] * 2e-2 * c:
            smooth &= np.abs(local(s, p + h) + local(s, p - h) - 2 * local(s, p)) < 2e-2 * c * 0.1
    bad = smooth & (np.abs(want) > 1e-4)
    rec.close(n[bad], gw[bad], rtol=0, atol=5e-3 if X64 else 0.05 * sc / c, msg=f"{k} normal")
    on = smooth & (np.abs(want) <= 1e-4)
    rec.check(not X64 or np.all((n[on] * gw[on]).sum(-1) > 0.5), f"{k} normal on the surface")
    # friction of the closest surface
    if k in ("union", "domain"):
        if k == "union":
            ds = np.array([local(q, p) for q in s["parts"]])
            fr = np.array(s["frictions"])
        else:
            lo, hi = np.array(s["size"][0]), np.array(s["size"][1])
            ds = np.concatenate([p - lo, hi - p], -1).T
            fr = np.broadcast_to(np.array(s["frictions"], dtype=float), (2 * dim,))
        order = np.sort(ds, axis=0)
        clear = order[1] - order[0] > 1e-5 + (1e-8 if X64 else 2e-5) * sc
        rec.close(f[clear], fr[np.argmin(ds, axis=0)][clear], rtol=1e-6, scale=1.0, msg=f"{k} friction")
        rec.label("friction")
    else:
        rec.close(f, np.ones(NP), rtol=1e-12, msg="default friction")
    rec.nt(want.min() < 0 < want.max() and (k == "domain" or np.abs(com).max() > 0))
    rec.label(k + str(dim), *(["smooth"] * bool(bad.any())), *(["surface"] * bool(on.any())), *(["edge"] * bool((~smooth).any())))


@part(gen, quick=300, thorough=6000, shards=6, x64=False)
def shapes32(case, rec):
    """the same in the default single precision"""
    shapes(case, rec)


CLOUD = [dict(dim=d, k=k) for d in (2, 3) for k in (0.0, 2.0, 200.0)]


@composite
def gen_cloud(draw):
    c = pick(draw, *share(CLOUD))
    dim, n = c["dim"], 5
    h = lognum(draw, 0.05, 5.0, 16)
    pos = h * np.array(arr(draw, (n, dim), -1, 1))
    q = 1.5 * h * np.array(arr(draw, (NP, dim), -1, 1))
    q[0] = pos[0]
    q[1] = pos[-1]
    return dict(c, h=h, pos=pos.tolist(), vol=(h ** dim * np.array(arr(draw, (n,), 0.01, 1.0))).tolist(), points=q.tolist(), grow=pick(draw, 1.0, 1.7))


@eqx.filter_jit
def cloud_eval(logic, pos, mp):
    return logic.get_signed_distance_stack(pos, mp), logic.get_normal_stack(pos, mp)


@part(gen_cloud, quick=300, thorough=10000, shards=2)
def cloud(case, rec):
    """particle cloud: (smoothed) union of the discs or balls of the particles' initial volumes"""
    dim, k = case["dim"], case["k"]
    pos, vol, q = np.array(case["pos"]), np.array(case["vol"]), np.array(case["points"])
    mp = make_mp(len(pos), pos=pos, vol=vol * case["grow"], vol0=vol)
    logic = hdx.MaterialPointCloudSDF(smooth_k=k)
    d, n = (N(x) for x in cloud_eval(logic, A(q), mp))
    r = np.sqrt(vol / np.pi) if dim == 2 else np.cbrt(3 * vol / (4 * np.pi))
    ds = np.sqrt(((q[:, None] - pos[None]) ** 2).sum(-1)) - r
    low = ds.min(1)
    if k > 0:
        want = low - np.log(np.exp(-k * (ds - low[:, None])).sum(1)) / k
    else:
        want = low
    rec.close(d, want, rtol=1e-8, scale=case["h"] + 1.0 / max(k, 1), atol=1e-5, msg="cloud distance")
    rec.le(d, low, tol=1e-5, msg="smooth union above the union")
    if k > 0:
        rec.le(low - d, np.log(len(pos)) / k, tol=1e-5, msg="smooth union too far from the union")
    rec.finite(n, "cloud normal")
    srt = np.sort(ds, axis=1)
    sep = q - pos[np.argmin(ds, 1)]
    dist = np.sqrt((sep ** 2).sum(-1))
    lone = (dist > 1e-2 * case["h"]) & ((srt[:, 1] - srt[:, 0]) * max(k, 0) > 20 if k > 0 else srt[:, 1] - srt[:, 0] > 1e-3 * case["h"])
    rec.close(n[lone], (sep / np.where(dist > 0, dist, 1)[:, None])[lone], rtol=0, atol=1e-4, msg="cloud normal")
    rec.nt(low.min() < 0 < low.max())
    rec.label("sharp" if k == 0 else "smooth", "lone" if lone.any() else "mixed")


@composite
def gen_grid(draw):
    n = [3, 4, 5]
    c = lognum(draw, 0.1, 10.0, 16)
    lo = c * np.array(arr(draw, (3,), -2, 0.5))
    return dict(lo=lo.tolist(), hi=(lo + c * np.array(arr(draw, (3,), 0.3, 2.0))).tolist(), data=arr(draw, (3, 4, 5), -1, 1), linear=boolean(draw),
                thickness=pick(draw, 1e-7, num(draw, 0, 0.2, 16) * c), scale=pick(draw, 1.0, 2.5, 0.3), com=(c * np.array(arr(draw, (3,), -2, 2))).tolist(),
                angle=arr(draw, (4,), -1, 1), points=arr(draw, (NP, 3), -0.3, 1.3), snap=boolean(draw))


@part(gen_grid, quick=60, thorough=1500, shards=2)
def sampled(case, rec):
    """sampled-grid shape: trilinear interpolation of the samples, clamped at the box, scaled and thickened"""
    lo, hi, data = np.array(case["lo"]), np.array(case["hi"]), np.array(case["data"])
    res = np.array(data.shape) - 1
    if case["linear"]:
        idx = np.stack(np.meshgrid(*[np.linspace(0, 1, s) for s in data.shape], indexing="ij"), -1)
        data = (idx * (hi - lo) + lo) @ np.array([0.3, -0.5, 0.7]) + 0.1
    with tempfile.TemporaryDirectory(prefix="verif_c20_") as tmp:
        path = os.path.join(tmp, "s.npz")
        np.savez(path, sdf=data, min=lo, max=hi)
        logic = GridSDF(path, thickness=case["thickness"], scale=case["scale"])
    u = np.array(case["points"])
    if case["snap"]:
        u = np.round(u * res) / res
    p = (lo + u * (hi - lo)) * case["scale"]
    R = rotation3(case["angle"])
    com = np.array(case["com"])
    st = logic.create_state(A(com), rotation=A(quaternion(case["angle"])))
    d = N(logic.get_signed_distance_stack(st, A(com + p @ R.T)))
    n = N(logic.get_normal_stack(st, A(com + p @ R.T)))
    t = np.clip(u, 0, 1) * res
    i = np.minimum(np.floor(t).astype(int), res - 1)
    f = t - i
    want = np.zeros(NP)
    for off in np.ndindex(2, 2, 2):
        w = np.prod(np.where(np.array(off) == 1, f, 1 - f), -1)
        want += w * data[tuple((i + np.array(off)).T)]
    want = want * case["scale"] - case["thickness"]
    sc = np.abs(data).max() * case["scale"] + case["thickness"]
    rec.close(d, want, rtol=1e-7, scale=sc * (1 + np.abs(com).max() + np.abs(p).max()) / np.min(hi - lo) + sc, msg="sampled distance")
    rec.finite(n, "sampled normal")
    inside = np.all((u > 0.02) & (u < 0.98), axis=-1)
    if case["linear"] and not case["snap"]:
        g = np.array([0.3, -0.5, 0.7])
        rec.close(n[inside], np.broadcast_to(R @ g / np.sqrt(g @ g), (inside.sum(), 3)), rtol=0, atol=1e-5, msg="sampled normal")
    lb, ub = (N(x) for x in logic.get_local_bounds())
    rec.close(lb, lo * case["scale"] - case["thickness"], rtol=1e-9, scale=1 + np.abs(lo).max() * 3, msg="lower bound")
    rec.close(ub, hi * case["scale"] + case["thickness"], rtol=1e-9, scale=1 + np.abs(hi).max() * 3, msg="upper bound")
    rec.nt(inside.any())
    rec.label("linear" if case["linear"] else "arbitrary", "clamped" if (~inside).any() else "inside")
