"""C22: obstacle contact removes approach, obeys Coulomb, and nothing else."""
from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c20 as shapes

for _name in ("shapes", "shapes32", "cloud", "sampled"):
    PARTS.pop(_name, None)

RULE = ("A case puts one or two particles on every node of one or two grids (linear kernel, so that each particle reports the velocity of "
        "its own node), with one to three obstacles of any shape, pose and motion. Non-trivial: some node inside a contact layer approaches the "
        "obstacle and some node lies outside every layer.")
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
KINDS2 = ["box", "sphere", "plane", "capsule", "ring", "walls", "star5", "domain", "union"]
KINDS3 = ["box", "sphere", "plane", "capsule", "pipe", "cylinder", "torus", "domain", "union"]
POOL = pool(120 if THOROUGH else 14, seed=22, dim=[2, 3, 2], scheme=["usl", "usl_aflip"], alpha=[0.0, 1.0], kind=list(range(9)), second=[None, 1, 3, 4, 8],
            friction=[1.0, 0.0, 0.4, 2.5], grids=[1, 2], on=["default", "first", "last"], spare=[False, True], gap=[1e-4, 0.1], twice=[False, False, True], ratio=[1.25, 0.75], latest=[False, True])
if not THOROUGH:   # every kind at least once
    for _i, _c in enumerate(POOL):
        _c["kind"] = _i % 9


def rescale(s, f):
    s = dict(s)
    s["size"] = (np.array(s["size"], dtype=float) * f).tolist()
    if "parts" in s:
        s["parts"] = [rescale(q, f) for q in s["parts"]]
    s["scale"] = s["scale"] * f
    return s


def draw_obstacle(draw, kind, dim, h, mid, dt):
    s = shapes.draw_shape(draw, kind, dim)
    s = rescale(s, 2.0 / s["scale"] * lognum(draw, 0.4, 1.5, 16))
    if kind == "domain":
        lo = mid + h * np.array(arr(draw, (dim,), -3.5, -1.0))
        s["size"] = [lo.tolist(), (mid + h * np.array(arr(draw, (dim,), 1.0, 3.5))).tolist()]
    o = dict(shape=s, com=(mid + 2 * h * np.array(arr(draw, (dim,), -1, 1))).tolist(), angle=pick(draw, 0.0, num(draw, -4, 4)) if dim == 2 else arr(draw, (4,), -1, 1))
    v = np.array(arr(draw, (dim,), -1, 1)) * 0.3 * h / dt
    w = np.array(arr(draw, (3,), -1, 1)) * 2e-3 / dt
    kind_of = pick(draw, "both", "both", "still", "slide", "spin")
    still = kind == "domain" or kind_of == "still"
    o["vel"] = (v * (not still and kind_of != "spin")).tolist()
    o["omega"] = (w * (not still and kind_of != "slide")).tolist()
    return o


@composite
def gen(draw):
    c = dict(pick(draw, *share(POOL)))
    dim = c["dim"]
    kinds = KINDS2 if dim == 2 else KINDS3
    h, cells = 0.5, [8, 7] if dim == 2 else [5, 4, 5]
    dt = pick(draw, 1e-3, 1e-2)
    mid = h * np.array(cells) / 2
    names = [kinds[c["kind"]]] + ([kinds[c["second"]]] if c["second"] is not None else [])
    c["obstacles"] = [draw_obstacle(draw, k, dim, h, mid, dt) for k in names]
    if c["spare"]:
        c["obstacles"].insert(0, draw_obstacle(draw, "sphere", dim, h, mid, dt))
    n = int(np.prod([q + 1 for q in cells]))
    c.update(h=h, cells=cells, dt=dt, raw=arr(draw, (2, n, dim), -1, 1), mass=arr(draw, (n,), 0.1, 1.0, levels=64), speed=lognum(draw, 0.01, 0.3, 8), heavy=pick(draw, 1.0, 1e-6, 1e6, 1e-10))
    return c


def gradient(s, q, e):
    g = np.zeros_like(q)
    for d in range(q.shape[1]):
        k = np.zeros(q.shape[1])
        k[d] = e
        g[:, d] = (shapes.local(s, q + k) - shapes.local(s, q - k)) / (2 * e)
    return g


def face(o, dim, x, t):
    """distance, outward normal, surface velocity, friction and smoothness of an obstacle at points x and time t"""
    s = o["shape"]
    c = s["scale"]
    v, w = np.array(o["vel"]), np.array(o["omega"])
    if dim == 2:
        w = np.array([0.0, 0.0, w[2]])
    if s["kind"] == "domain":
        R, com = np.eye(dim), np.zeros(dim)
    else:
        th = w * t
        K = np.array([[0, -th[2], th[1]], [th[2], 0, -th[0]], [-th[1], th[0], 0]])
        R = ref.expm(K)[:dim, :dim] @ shapes.rotation(o, dim)
        com = np.array(o["com"]) + v * t
    p = (x - com) @ R
    d = shapes.local(s, p)
    n = gradient(s, p, 1e-5 * c)
    ok = (np.abs(np.sqrt((n ** 2).sum(-1)) - 1) < 1e-4) & (np.abs(d) > 1e-3 * c)
    for k in shapes.DIRS[dim] * 1e-3 * c:
        ok &= np.abs(shapes.local(s, p + k) + shapes.local(s, p - k) - 2 * d) < 3e-5 * c
    mu = np.ones(len(x))
    if s["kind"] in ("union", "domain"):
        if s["kind"] == "union":
            ds = np.array([shapes.local(q, p) for q in s["parts"]])
            fr = np.array(s["frictions"])
        else:
            lo, hi = np.array(s["size"][0]), np.array(s["size"][1])
            ds = np.concatenate([p - lo, hi - p], -1).T
            fr = np.broadcast_to(np.array(s["frictions"], dtype=float), (2 * dim,))
        srt = np.sort(ds, axis=0)
        ok &= srt[1] - srt[0] > 1e-4 * c
        mu = fr[np.argmin(ds, axis=0)]
    vs = v + np.cross(w, ref.pad3(x - com))[:, :dim] if s["kind"] != "domain" else np.zeros_like(x)
    return d, n @ R.T, vs, mu, ok


def add_obstacle(b, o, dim):
    s = o["shape"]
    kw = {}
    if s["kind"] != "domain":
        kw = dict(center_of_mass=A(o["com"]), velocity=A(o["vel"]), angular_velocity=A(o["omega"][2]) if dim == 2 else A(o["omega"]),
                  rotation=A(o["angle"]) if dim == 2 else A(shapes.quaternion(o["angle"])))
    with quiet():
        return b.add_sdf_object(sdf_logic=shapes.build(s), **kw)


def scene(case):
    """(solver, state, node positions of each grid, colliders as (grid list, obstacle index)); the second grid has its own cell size"""
    dim, h, ng = case["dim"], case["h"], case["grids"]
    idx = np.stack(np.meshgrid(*[np.arange(q + 1) for q in case["cells"]], indexing="ij"), -1).reshape(-1, dim)
    x = h * idx
    two = np.arange(len(x)) % 3 == 1
    hs = [h, h * case.get("ratio", 1.0)][:ng]
    xs = [hg * idx for hg in hs]
    b = hdx.SimBuilder()
    for hg in hs:
        b.add_grid(origin=(0.0,) * dim, end=tuple(hg * q for q in case["cells"]), cell_size=hg)
    latest = case.get("latest", False)      # colliders without an index stop at the latest obstacle
    for o in [] if latest else case["obstacles"]:
        add_obstacle(b, o, dim)
    m = np.concatenate([np.array(case["mass"]), 2.0 * np.array(case["mass"])[two]]) * case.get("heavy", 1.0)
    for g in range(ng):
        pos = np.concatenate([xs[g], xs[g][two]])
        p = b.add_material_points(position_stack=A(pos), mass_stack=A(m), volume_stack=A(np.full(len(pos), h ** dim / 2)))
        cc = b.add_constitutive_law(law=make_law("elastic", E=0.0, nu=0.0, requires_F_reset=False))
        b.couple(p_idx=p, g_idx=g, c_idx=cc, shapefunction="linear")
    lists = dict(default=list(range(ng)), first=[0], last=[ng - 1])[case["on"]]
    cols = []
    first = 1 if case["spare"] else 0
    for i in range(len(case["obstacles"])):
        if latest:
            add_obstacle(b, case["obstacles"][i], dim)
        for _ in range(0 if i < first else 2 if case["twice"] else 1):
            kw = {} if case["on"] == "default" else dict(g_idx_list=lists)
            if not latest:
                kw["sdf_idx"] = i
            b.add_sdf_collider(friction=case["friction"], gap=case["gap"], **kw)
            cols.append((lists, i))
    p = dict(alpha=case["alpha"])
    if case["scheme"] == "usl_aflip":
        p.update(cfl_limit=1e6, use_dynamic_alpha=False, small_mass_cutoff=1e-14)
    b.set_solver(scheme=case["scheme"], **p)
    solver, state = b.build(dt=case["dt"])
    return solver, state, xs, hs, two, m, cols


@part(gen, quick=140, thorough=6000, shards=7)
def nodes(case, rec):
    """the velocity of every node after contact against sequential Coulomb projection on closed-form obstacles, over two steps"""
    dim, dt = case["dim"], case["dt"]
    solver, s, xs, hs, two, m, cols = scene(case)
    h = hs[0]
    n = len(xs[0])
    V = case["speed"] * h / dt
    hit = free = 0
    for k in range(2):
        every_face = [[face(o, dim, x, (k + 1) * dt) for o in case["obstacles"]] for x in xs]
        faces = every_face[0]
        raw = np.array(case["raw"][k]) * V
        # directed velocities: straight into the wall, along it, away from it, moving with it
        d, nor, vs, mu, ok = faces[cols[0][1]]
        v = raw.copy()
        mode = np.arange(n) % 6
        vn = (raw * nor).sum(-1)[:, None]
        v = np.where((mode == 1)[:, None], vs - np.abs(vn) * nor, v)
        v = np.where((mode == 2)[:, None], vs + raw - vn * nor, v)
        v = np.where((mode == 3)[:, None], vs + raw - vn * nor + np.abs(vn) * nor, v)
        v = np.where((mode == 4)[:, None], vs, v)
        old = s
        jump = 0.3 * np.array(case["raw"][1 - k])[two] * V     # second particle of a node moves differently
        vp = np.concatenate([v, v[two] + jump])
        mps = tuple(set_mp(q, pos=np.concatenate([x, x[two]]), vel=vp) for x, q in zip(xs, s.world.material_points))
        s = eqx.tree_at(lambda q: q.world.material_points, s, mps)
        if case["scheme"] == "usl_aflip":
            for i in range(case["grids"]):
                s = set_bp(s, i, np.zeros((len(vp), 3, 3)))
        s = step(solver, s)
        node = v.copy()
        node[two] += 2.0 / 3.0 * jump
        for g in range(case["grids"]):
            h, faces = hs[g], every_face[g]
            sure = np.ones(n, bool)
            for dd, *_, o_ok in faces:
                sure &= np.abs(dd - h) > 1e-5 * h
            want = node.copy()
            smooth = sure.copy()
            touched = np.zeros(n, bool)
            for lists, i in cols:
                if g not in lists:
                    continue
                dd, nn, vv, mm, oo = faces[i]
                layer = dd <= h
                smooth &= oo | ~layer
                touched |= layer
                for a in np.where(layer & smooth)[0]:
                    hit += (want[a] - vv[a]) @ nn[a] < -1e-6 * V
                    want[a] = ref.contact(want[a], nn[a], vv[a], case["friction"] * mm[a])
            free += int((~touched).sum())
            got = N(s.world.material_points[g].velocity_stack)
            every = np.concatenate([want, want[two]])
            if case["alpha"] == 1.0:
                every = every + vp - np.concatenate([node, node[two]])
            yes = np.concatenate([smooth, smooth[two]])
            sc = V + max(np.abs(f[2]).max() for f in faces)
            rec.close(got[yes], every[yes], rtol=0, atol=1e-5 * sc, msg=f"node velocity, grid {g}")
            # tight where the wall plays no part
            off = np.concatenate([sure & ~touched, (sure & ~touched)[two]])
            rec.close(got[off], every[off], rtol=0, atol=1e-9 * sc, msg=f"node outside every layer, grid {g}")
            # invariants on what came out (particles alone on their node)
            if case["alpha"] == 0.0:
                lists, i = cols[-1]
                if g in lists:
                    dd, nn, vv, mm, oo = faces[i]
                    a = (dd <= h) & smooth
                    rel = got[:n][a] - vv[a]
                    rec.check(np.all((rel * nn[a]).sum(-1) > -1e-4 * sc), "approach left by the last obstacle")
                if len(set(i for _, i in cols)) == 1 and g in cols[0][0]:
                    dd, nn, vv, mm, oo = faces[cols[0][1]]
                    a = (dd <= h) & smooth
                    r0, r1 = node[a] - vv[a], got[:n][a] - vv[a]
                    n0, n1 = (r0 * nn[a]).sum(-1), (r1 * nn[a]).sum(-1)
                    t0, t1 = r0 - n0[:, None] * nn[a], r1 - n1[:, None] * nn[a]
                    q0, q1 = np.sqrt((t0 ** 2).sum(-1)), np.sqrt((t1 ** 2).sum(-1))
                    tol = 1e-4 * sc
                    rec.le(np.abs(n1 - np.maximum(n0, 0)), tol, msg="separation changed or approach left")
                    rec.le(q1, q0 + tol, msg="slip increased")
                    rec.le(q0 - q1, case["friction"] * mm[a] * np.maximum(-n0, 0) + tol, msg="friction above Coulomb")
                    rec.check(np.all((t0 * t1).sum(-1) > -tol * sc), "slip reversed")
                    rec.le((r1 ** 2).sum(-1), (r0 ** 2).sum(-1) + tol * sc, msg="relative kinetic energy added")
    rec.nt(hit > 0 and free > 0)
    rec.label(*(o["shape"]["kind"] for o in case["obstacles"]), f"{dim}D", case["scheme"], f"{len(cols)} colliders", case["on"])


# ------------------------------------------------- a whole step with contact
MIX = pool(60 if THOROUGH else 7, seed=23, dim=[2, 3, 2], scheme=["usl", "usl_aflip"], kind=["sphere", "plane", "capsule", "domain", "ring"], kernel=list(KERNELS),
           friction=[0.5, 0.0, 1.3], gravity=[True, False])


@composite
def gen_mixed(draw):
    c = dict(pick(draw, *share(MIX)))
    dim = c["dim"]
    if dim == 3 and c["kind"] == "ring":
        c["kind"] = "torus"
    g = GRIDS[dim][1]
    h = g["h"]
    dt = pick(draw, 1e-3, 5e-3)
    mid = np.array(g["origin"]) + h * np.array(g["cells"]) / 2
    c["obstacle"] = draw_obstacle(draw, c["kind"], dim, h, mid, dt)
    c["obstacle"]["shape"] = c["obstacle"]["shape"] if c["kind"] == "domain" else rescale(c["obstacle"]["shape"], 0.5)
    c["body"] = draw_body(draw, 8, g, dim, stress=False, deform=False, bp=c["scheme"] == "usl_aflip", speed=0.3 / dt * 0.1, margin=0.0)
    c["down"] = [0.0] * (dim - 1) + [-9.81 * h / dt * 0.01]
    c["dt"] = dt
    return c


@part(gen_mixed, quick=100, thorough=4000, shards=4)
def mixed(case, rec):
    """a full step of a body touching an obstacle, all kernels, against the dense reference step with closed-form contact"""
    dim, dt = case["dim"], case["dt"]
    g = GRIDS[dim][1]
    h = g["h"]
    o = case["obstacle"]
    b = hdx.SimBuilder()
    builder_add_grid(b, g)
    add_obstacle(b, o, dim)
    with quiet():
        p = b.particle_states.add(make_mp(**mp_fields(case["body"])))
        b.add_constitutive_law(law=make_law("elastic", E=0.0, nu=0.0, requires_F_reset=False))
    b.couple(p_idx=p, shapefunction=case["kernel"])
    if case["gravity"]:
        b.add_gravity(gravity=A(case["down"]), is_apply_on_grid=True)
    b.add_sdf_collider(sdf_idx=0, friction=case["friction"])
    par = dict(cfl_limit=1e6) if case["scheme"] == "usl_aflip" else {}
    b.set_solver(scheme=case["scheme"], **par)
    solver, state = b.build(dt=dt)
    if case["scheme"] == "usl_aflip":
        state = set_bp(state, 0, case["body"]["Bp"])
    rg = ref_grid(g)
    keep = []

    def wall(nodes):
        d, n, vs, mu, ok = face(o, dim, nodes, dt)
        keep.append((d - h, ok))
        return d - h, n, vs, mu

    fs = [("gravity_grid", [0], np.array(case["down"]))] if case["gravity"] else []
    fs.append(("collider", [0], wall, case["friction"]))
    cur = ref_body(case["body"], case["kernel"], 0, dim)
    new, gd = ref.mpm_step(case["scheme"], [rg], [cur], dt, par, fs)
    d, ok = keep[0]
    used = gd["mass"][0] > 1e-14
    cut = 1e-7 if case["scheme"] == "usl_aflip" else 1e-12
    near = (d <= 0) & used
    if np.any(~ok & used & (d <= 1e-4 * h)) or np.any(used & (np.abs(d) < 1e-5 * h)) or np.any(np.abs(gd["mass"][0] - cut) < 1e-3 * cut):
        rec.label("kink or edge of the layer")
        return
    w = new[0]
    got = mp_dict(step(solver, state).world.material_points[0])
    vs = np.abs(w["vel"]).max() + np.abs(cur["vel"]).max() + h * np.abs(cur["Bp"]).max() + np.abs(w["pic"]).max()
    rec.close(got["vel"], w["vel"], rtol=0, atol=1e-4 * vs, msg="velocity after a step with contact")
    rec.close(got["pos"], w["pos"], rtol=0, atol=1e-4 * vs * dt + 1e-7, msg="position after a step with contact")
    rec.close(got["L"], w["L"], rtol=0, atol=2e-4 * (vs / h + np.abs(w["L"]).max()), msg="velocity gradient after a step with contact")
    vn = gd["mom"][0] / np.where(used, gd["mass"][0], 1)[:, None]
    rec.nt(bool(near.any() and (used & (d > 0)).any() and np.abs(gd["mom_nt"][0][near] - gd["mom"][0][near]).max() > 1e-6 * np.abs(gd["mom"][0]).max()))
    rec.label(case["kind"], f"{dim}D", case["scheme"], case["kernel"])
