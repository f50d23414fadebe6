"""Generated multi-body scenes with laws, forces and obstacles, shared by several checks."""
from .gen import *
from .mpm import *

LAWS = ["elastic", "fluid", "mui", "dp", "mcc", "frozen"]
RHO = dict(elastic=1000.0, fluid=1000.0, mui=1600.0, dp=950.0, mcc=1000.0, frozen=1000.0)
CELLS = {2: [7, 8], 3: [5, 6, 5]}
ORIGIN = {2: [-1.0, 0.5], 3: [0.5, -1.0, 2.0]}


def draw_scene(draw, c):
    dim, h = c["dim"], c["h"]
    g = dict(origin=[o * h for o in ORIGIN[dim]], cells=CELLS[dim], h=h)
    nb = 1 if c["bodies"] == "one" else 2
    cs = 10.0
    bodies = []
    law = c["law"]
    for i in range(nb):
        n = c["n"] if i == 0 else 3
        # a cluster of about two cells, anywhere at least 1.5 cells from the box edge
        lo = np.full(dim, 1.5)
        span = np.array(CELLS[dim]) - 3.0 - 2.0
        base = lo + np.asarray(arr(draw, (dim,), 0, 1)) * span
        u = base + 2.0 * (np.round(np.asarray(arr(draw, (n, dim), 0, 1)) * 127) + 0.37) / 128
        pos = np.array(g["origin"]) + h * u
        vol = h ** dim / 4 * np.asarray(arr(draw, (n,), 0.6, 1.4))
        rho = RHO[law] * np.asarray(arr(draw, (n,), 0.9, 1.1))
        b = dict(pos=pos.tolist(), vel=(cs * 0.2 * np.asarray(arr(draw, (n, dim), -1, 1))).tolist(),
                 mass=(rho * vol).tolist(), vol=vol.tolist())
        if law in ("elastic", "frozen"):
            s = sym(arr(draw, (n, 3, 3), -1, 1)) * 2000.0
            if dim == 2:
                s[:, 2, :2] = 0
                s[:, :2, 2] = 0
            b["stress"] = s.tolist()
        if law == "dp":
            b["stress"] = (np.eye(3) * 500.0 * np.asarray(arr(draw, (n, 1, 1), 0.5, 1.5))).tolist()
        if c["scheme"] == "usl_aflip" and boolean(draw):
            B = np.asarray(arr(draw, (n, 3, 3), -1, 1)) * cs * 0.05 / h
            if dim == 2:
                B[:, 2, :] = B[:, :, 2] = 0
            b["Bp"] = B.tolist()
        bodies.append(b)
    mid = np.array(g["origin"]) + 0.5 * h * np.array(CELLS[dim])
    obstacles = []
    if "sphere" in c["obstacles"]:
        obstacles.append(dict(kind="sphere", radius=1.3 * h, com=(mid + h * 2.5 * np.asarray(arr(draw, (dim,), -1, 1))).tolist(),
                              vel=(np.asarray(arr(draw, (dim,), -1, 1))).tolist(),
                              omega=arr(draw, (3,), -1, 1)))
    if "plane" in c["obstacles"]:
        n = unit_vector(arr(draw, (dim,), -1, 1))
        obstacles.append(dict(kind="plane", normal=n.tolist(), com=(mid - 1.4 * h * n).tolist(), vel=[0.0] * dim, omega=[0.0] * 3))
    return dict(cfg=c, grid=g, bodies=bodies, gravity=arr(draw, (dim,), -10, 10, levels=41), obstacles=obstacles,
                dt=0.1 * h / cs * pick(draw, 1.0, 0.3), steps=integer(draw, 1, 5))


def build(case):
    c = case["cfg"]
    dim = c["dim"]
    law = c["law"]
    lawspec = frozen_elastic() if law == "frozen" else (law, dict(requires_F_reset=c["reset"]))
    sep = c["bodies"] == "separate"
    bodies = [dict(mp=mp_fields(b), law=lawspec, g=i if sep else 0, kernel=c["kernel"],
                   law_init=dict(p0=2000.0) if law == "mcc" else {}) for i, b in enumerate(case["bodies"])]
    forces = []
    for f in c["forces"]:
        if f == "gravity":
            forces.append(("gravity", dict(gravity=A(case["gravity"]), is_apply_on_grid=True)))
        if f == "gravity_p":
            forces.append(("gravity", dict(gravity=A(case["gravity"]), is_apply_on_grid=False)))
        if f == "damping":
            forces.append(("damping", dict(alpha=0.3, is_apply_on_grid=True)))
    sdfs = []
    for i, o in enumerate(case["obstacles"]):
        logic = hdx.SphereSDF(o["radius"]) if o["kind"] == "sphere" else hdx.PlaneSDF(A(o["normal"]))
        kw = dict(sdf_logic=logic, center_of_mass=A(o["com"]), velocity=A(o["vel"]))
        kw["angular_velocity"] = A(o["omega"]) if dim == 3 else A(o["omega"][2])
        sdfs.append(kw)
        forces.append(("collider", dict(sdf_idx=i, friction=0.4)))
    params = dict(alpha=c["alpha"])
    if c["scheme"] == "usl_aflip":
        params.update(use_mls_update=c["mls"], use_dynamic_alpha=c["dyn"], cfl_limit=case.get("cfl", 50.0),
                      small_mass_cutoff=1e-12)
    grids = [case["grid"]] * (2 if sep else 1)
    with quiet():
        solver, s = simple_scene(grids=grids, bodies=bodies, scheme=c["scheme"], dt=case["dt"], params=params,
                                 forces=forces, sdfs=sdfs, extras=case.get("extras", ()))
    for i, b in enumerate(case["bodies"]):
        if "Bp" in b:
            s = set_bp(s, i, b["Bp"])
    return solver, s


def result(case, steps=None):
    solver, s = build(case)
    out = run(solver, s, steps or case["steps"])
    return out
