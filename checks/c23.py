"""C23: material stays inside the container and finite over long runs."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a body (block, column or two blocks) of one law, dropped or pushed with random speed and gravity direction in a closed container, "
        "run for hundreds of steps; or a column in equilibrium with its own weight or a confined block under pressure. Non-trivial: particles come within a cell of a "
        "wall and the body has moved (runs), or the material carries its weight (rest).")
ASSUMPTIONS = ["the time step is 0.1 to 0.4 of the critical one at every sampled state", "walls are at grid nodes or between them, at least two cells inside the grid's box",
               "quadratic and cubic shape functions (with the linear one an almost empty node makes the method unstable)", "deformations are moderate: impact speeds up to a tenth of the wave speed"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]
POOL = pool(80 if THOROUGH else 12, seed=23, law=LAWS, scheme=["usl", "usl_aflip"], dim=[2, 3, 2], kernel=["quadratic", "quadratic", "cubic"], bodies=[1, 2], on_grid=[True, False], damping=[False, False, True], dyn=[False, True], mls=[True, False])
H = 0.1
BOX = {2: [8, 8], 3: [4, 4, 5]}


def material(draw, law):
    if law == "elastic":
        f = dict(E=lognum(draw, 1e5, 1e6, 8), nu=num(draw, 0.0, 0.4, 8))
        lam = f["E"] * (1 - f["nu"]) / ((1 + f["nu"]) * (1 - 2 * f["nu"]))
        return f, 1000.0, np.sqrt(lam / 1000.0)
    if law == "fluid":
        f = dict(K=lognum(draw, 1e5, 1e6, 8), viscosity=pick(draw, 0.0, 1e-3, 1.0), beta=pick(draw, 7.0, 1.0, 4.0))
        return f, 1000.0, np.sqrt(f["K"] * f["beta"] / 1000.0)
    if law == "mui":
        mu = num(draw, 0.2, 0.5, 6)
        f = dict(mu_s=mu, mu_d=mu + num(draw, 0.0, 0.4, 6), I_0=0.3, d_p=5e-3, K=lognum(draw, 1e5, 1e6, 8), rho_p=2500.0, alpha=pick(draw, 1e-6, 1e-2))
        return f, 1600.0, np.sqrt(f["K"] / 1600.0)
    if law == "dp":
        mu = num(draw, 0.2, 0.6, 6)
        f = dict(K=lognum(draw, 1e5, 1e6, 8), nu=num(draw, 0.1, 0.4, 8), mu_1=mu, mu_2=mu * pick(draw, 1.0, 1.3), c0=pick(draw, 0.0, 100.0), mu_1_hat=mu * pick(draw, 0.0, 0.3), H=0.0, rho_0=900.0)
        G = 3 * f["K"] * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"]))
        return f, 1000.0, np.sqrt((f["K"] + 4 / 3 * G) / 900.0)
    f = dict(nu=num(draw, 0.1, 0.4, 8), M=num(draw, 0.8, 1.4, 6), lam=pick(draw, 0.025, 0.05), kap=pick(draw, 0.005, 0.01), N=1.7, K_min=1e4, K_max=pick(draw, 1e6, 3e6))
    G = 3 * f["K_max"] * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"]))
    return f, 1500.0, np.sqrt((f["K_max"] + 4 / 3 * G) / 1500.0)


@composite
def gen(draw):
    c = dict(pick(draw, *share(POOL)))
    dim = c["dim"]
    f, rho, cs = material(draw, c["law"])
    cells = np.array(BOX[dim])
    nb = c["bodies"]
    ppc = 2
    bodies = []
    off = pick(draw, 0.0, 0.5, 0.25)
    for i in range(nb):
        size = np.array([integer(draw, 1, 3) for _ in range(dim)]) if dim == 2 else np.array([integer(draw, 1, 2) for _ in range(dim)])
        room = cells - size
        if nb == 2:         # side by side along the first axis
            size[0] = min(size[0], cells[0] // 2 - 1)
            room = cells - size
            room[0] = cells[0] // 2 - size[0]
        lo = np.array([integer(draw, 0, int(2 * r)) / 2 for r in room])
        if nb == 2 and i:
            lo[0] += cells[0] // 2
        speed = pick(draw, 0.0, 0.02, 0.1)
        bodies.append(dict(size=size.tolist(), lo=lo.tolist(), vel=(cs * speed * np.array(arr(draw, (dim,), -1, 1))).tolist()))
    g = np.array(arr(draw, (dim,), -1, 1))
    if pick(draw, True, True, False):
        g = -np.eye(dim)[-1]
    depth = H * cells.max()
    return dict(cfg=c, law=f, rho=rho, cs=float(cs), bodies=bodies, off=off, g=(g * pick(draw, 0.0, 1.0, 1.0) * min(10.0, 0.01 * cs * cs / depth)).tolist(), mu=pick(draw, 0.0, 0.3, 1.0), cfl=pick(draw, 0.1, 0.25, 0.4), alpha=pick(draw, 0.95, 0.99, 0.5), chunks=pick(draw, 12, 24))


STEPS = 25


def lattice(b, dim, ppc=2):
    axes = [lo + (np.arange(s * ppc) + 0.5) / ppc for lo, s in zip(b["lo"], b["size"])]
    return np.stack(np.meshgrid(*axes, indexing="ij"), -1).reshape(-1, dim)


def scene(case):
    c = case["cfg"]
    dim = c["dim"]
    cells = np.array(BOX[dim])
    lo = (2 + case["off"]) * H * np.ones(dim)
    hi = lo + H * cells
    g = dict(origin=[0.0] * dim, cells=(cells + 5).tolist(), h=H)
    bodies = []
    pos = []
    per = 36 if dim == 2 else 64           # one array size, so that the compiled step is shared: lattices are thinned or repeated
    for b in case["bodies"]:
        x = lattice(b, dim)
        extra = x[np.arange(per - len(x)) % len(x)] if len(x) < per else x[:0]
        count = np.ones(len(x)) if len(x) >= per else 1 + np.bincount(np.arange(per - len(x)) % len(x), minlength=len(x))
        x = np.concatenate([x, extra])[:per]
        w = np.concatenate([1 / count, (1 / count)[np.arange(len(extra)) % len(count)]])[:per]
        v = (H / 2) ** dim * w
        pos.append(lo + H * x)
        bodies.append(dict(mp=dict(pos=pos[-1].tolist(), vel=np.tile(b["vel"], (per, 1)).tolist(), mass=(case["rho"] * v).tolist(), vol=v.tolist()), law=(c["law"], case["law"]), kernel=c["kernel"], law_init=dict(p0=200.0) if c["law"] == "mcc" else {}))
        if c["law"] == "dp":
            bodies[-1]["mp"]["stress"] = (np.tile(np.eye(3), (per, 1, 1)) * 200.0).tolist()
    forces = [("gravity", dict(gravity=A(case["g"]), is_apply_on_grid=c["on_grid"]))]
    if c["damping"]:
        forces.append(("damping", dict(alpha=0.1, is_apply_on_grid=True)))
    forces.append(("collider", dict(friction=case["mu"])))
    params = dict(alpha=case["alpha"])
    if c["scheme"] == "usl_aflip":
        params.update(use_dynamic_alpha=c["dyn"], use_mls_update=c["mls"])
    dt = case["cfl"] * H / (case["cs"] * 1.1 + max(np.linalg.norm(b["vel"]) for b in case["bodies"]))
    with quiet():
        solver, state = simple_scene(grids=[g], bodies=bodies, scheme=c["scheme"], dt=dt, forces=forces, sdfs=[dict(sdf_logic=hdx.DomainSDF(A(lo), A(hi)))], params=params)
    return solver, state, lo, hi, dt


def snapshot(state):
    return [{k: N(getattr(m, k)) for k in ("position_stack", "velocity_stack", "stress_stack", "F_stack", "L_stack", "volume_stack", "mass_stack")} for m in state.world.material_points]


@part(gen, quick=48, thorough=2400, shards=8)
def contained(case, rec):
    """blocks dropped or pushed in a container: inside, finite, mass kept, no energy gained"""
    c = case["cfg"]
    dim = c["dim"]
    solver, state, lo, hi, dt = scene(case)
    solver, state = arrayify(solver), arrayify(state)
    g = np.array(case["g"])
    first = snapshot(state)
    m = np.concatenate([q["mass_stack"] for q in first])
    x0 = np.concatenate([q["position_stack"] for q in first])
    u = np.concatenate([q["velocity_stack"] for q in first])
    M = m.sum()
    ke0 = 0.5 * (m * (u * u).sum(1)).sum()
    near = moved = 0.0
    for k in range(case["chunks"]):
        state = run(solver, state, STEPS)
        now = snapshot(state)
        for i, q in enumerate(now):
            for name, v in q.items():
                rec.finite(v, f"{name} of body {i} after {(k + 1) * STEPS} steps")
            rec.check((q["volume_stack"] > 0).all(), "volume not positive")
            rec.same(q["mass_stack"], first[i]["mass_stack"], "particle mass changed")
        x = np.concatenate([q["position_stack"] for q in now])
        v = np.concatenate([q["velocity_stack"] for q in now])
        out = np.maximum(lo - x, x - hi).max()
        rec.margin("distance outside / cell", out / H)
        rec.check(out <= H, lambda: f"a particle is {out / H:.3f} cells outside the container after {(k + 1) * STEPS} steps")
        ke = 0.5 * (m * (v * v).sum(1)).sum()
        work = (m * ((x - x0) @ g)).sum()
        vmax = np.sqrt((v * v).sum(1).max())
        if vmax > 0.3 * case["cs"]:
            rec.label("fast")
        ref_e = ke0 + abs(work) + M * 1e-4 * case["cs"] ** 2
        rec.margin("energy", (ke - ke0 - work) / ref_e)
        rec.le(ke, ke0 + work + 0.05 * ref_e, msg=f"kinetic energy beyond the work of gravity after {(k + 1) * STEPS} steps")
        near = max(near, -(np.minimum(x - lo, hi - x).min() - H))
        moved = max(moved, np.abs(x - x0).max())
    rec.nt(near > 0 and moved > 0.25 * H)
    rec.label(c["law"], c["scheme"], f"{dim}D", c["kernel"], "hits a wall" if near > 0 else "free")


# ------------------------------------------------------------------ rest
RESTS = pool(40 if THOROUGH else 10, seed=231, law=LAWS, scheme=["usl", "usl_aflip"], dim=[2, 2, 3], kernel=["quadratic", "quadratic", "cubic"], on_grid=[True, False], dyn=[False, True], mls=[True, False], how=["weight", "weight", "pressed", "floating"])
if not THOROUGH:
    for _i, _c in enumerate(RESTS):
        _c["law"] = LAWS[_i % 5]


@composite
def gen_rest(draw):
    c = dict(pick(draw, *share(RESTS)))
    f, rho, cs = material(draw, c["law"])
    dim = c["dim"]
    return dict(cfg=c, law=f, rho=rho, cs=float(cs), g=pick(draw, 1.0, 0.3), mu=pick(draw, 0.0, 0.5), cfl=pick(draw, 0.1, 0.3), alpha=pick(draw, 0.95, 0.99, 0.5), p=lognum(draw, 50.0, 1e3, 8), level=integer(draw, 0, 8), up=pick(draw, -1, 1), axis=integer(draw, 0, dim - 1))


def rest_scene(case):
    c = case["cfg"]
    dim = c["dim"]
    cells = np.array([4, 5] if dim == 2 else [3, 3, 4])
    tall = np.roll(cells, (case["axis"] + 1) % dim)      # height along the drawn axis
    axis = case["axis"]
    lo = 3 * H * np.ones(dim)
    hi = lo + H * tall
    fill = tall.copy()
    if c["how"] == "weight":
        fill[axis] -= 2
    elif c["how"] == "floating":
        fill = fill * 0 + 2
    b = dict(size=fill.tolist(), lo=(0 * fill).tolist() if c["how"] != "floating" else [0.5] * dim)
    u = lattice(b, dim)
    if case["up"] > 0:      # gravity upwards: the material hangs at the upper wall
        u[:, axis] = tall[axis] - u[:, axis]
    x = lo + H * u
    n = len(x)
    g = np.zeros(dim)
    depth = np.zeros(n)
    p = np.full(n, case["p"])
    if c["how"] == "weight":
        size = 0.5 * case["g"] * min(10.0, 0.005 * case["cs"] ** 2 / (H * fill[axis]))
        g[axis] = case["up"] * size
        depth = H * (fill[axis] - (u[:, axis] if case["up"] < 0 else tall[axis] - u[:, axis]))
        p = case["rho"] * size * depth
        if c["law"] == "mcc":
            p = p + 0      # surface pressure is below p_min_calc near the free surface
    if c["how"] == "floating":
        p = p * 0
    return x, p, g, lo, hi, tall


@part(gen_rest, quick=40, thorough=1500, shards=5)
def rest(case, rec):
    """columns carrying their weight, blocks pressed between walls, and free blocks stay at rest"""
    c = case["cfg"]
    dim, law = c["dim"], c["law"]
    if c["how"] == "floating" and law == "mcc":
        rec.label("skipped: the law has no unloaded state")
        return
    x, p, g, lo, hi, tall = rest_scene(case)
    n = len(x)
    v = (H / 2) ** dim
    mp = dict(pos=x.tolist(), mass=[case["rho"] * v] * n, vol=[v] * n)
    if law != "mcc":
        mp["stress"] = (p[:, None, None] * np.eye(3)).tolist()
    cells = (tall + 6).tolist()
    body = dict(mp=mp, law=(law, case["law"]), kernel=c["kernel"], law_init=dict(p0=np.maximum(p, 10.0).tolist()) if law == "mcc" else {})
    params = dict(alpha=case["alpha"])
    if c["scheme"] == "usl_aflip":
        params.update(use_dynamic_alpha=c["dyn"], use_mls_update=c["mls"])
    dt = case["cfl"] * H / (case["cs"] * 1.1)
    with quiet():
        solver, state = simple_scene(grids=[dict(origin=[0.0] * dim, cells=cells, h=H)], bodies=[body], scheme=c["scheme"], dt=dt, forces=[("gravity", dict(gravity=A(g), is_apply_on_grid=c["on_grid"])), ("collider", dict(friction=case["mu"]))], sdfs=[dict(sdf_logic=hdx.DomainSDF(A(lo), A(hi)))], params=params)
    solver, state = arrayify(solver), arrayify(state)
    m = N(state.world.material_points[0].mass_stack)
    scale = np.sqrt(np.abs(p / case["rho"]).max()) if np.abs(p).max() > 0 else 0.0
    for k in range(16):
        state = run(solver, state, STEPS)
        q = snapshot(state)[0]
        for name, w in q.items():
            rec.finite(w, f"{name} after {(k + 1) * STEPS} steps")
        u = np.abs(q["velocity_stack"]).max()
        d = np.abs(q["position_stack"] - x).max() / H
        ke = 0.5 * (m * (q["velocity_stack"] ** 2).sum(1)).sum() / m.sum()
        if c["how"] == "floating":
            rec.le(u, 1e-8 * case["cs"], msg="free body without load set itself in motion")
            rec.le(d, 1e-6, msg="free body without load moved")
            continue
        most, far = dict(elastic=(2e-3, 0.2), dp=(0.03, 1.0), fluid=(0.03, 2.0), mui=(0.05, 2.0), mcc=(0.12, 2.0))[law]
        rec.margin(f"{c['how']} {law} energy", ke / scale ** 2 / most)
        rec.margin(f"{c['how']} {law} displacement", d / far)
        rec.le(ke, most * scale ** 2, msg=f"material at rest ({c['how']}) set itself in motion")
        rec.le(d, far, msg=f"material at rest ({c['how']}) moved (in cells)")
    rec.nt(c["how"] != "floating")
    rec.label(c["how"], law)
