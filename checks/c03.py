"""C03: a time step conserves mass and momentum and advances the clock."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a scene of one or two bodies (same or separate grids) with random positions, masses, velocities, "
        "stresses, deformation, affine state, blending ratio, gravity and time, advanced 1-3 steps. Non-trivial: some "
        "particle moves or is stressed, and particles interact through the grid (or there is gravity).")

POOL = pool(49, seed=3, dim=[2, 3], grid=[0, 1], kernel=list(KERNELS), scheme=list(SCHEMES), alpha=[0.99, 0.0, 0.5, 1.0],
            n=[1, 5], bodies=["one", "shared", "separate"], gravity=[None, "grid", "particles"],
            mls=[True, False], dyn=[True, False], damp_law=["frozen", "fluid"])
# a per-particle blending ratio does not conserve momentum by construction: uniform ratios only
for _c in POOL:
    _c["dyn"] = _c["dyn"] and _c["alpha"] == 0.0


def params_of(c):
    p = dict(alpha=c["alpha"])
    if c["scheme"] == "usl_aflip":
        p.update(use_mls_update=c["mls"], use_dynamic_alpha=c["dyn"], cfl_limit=50.0, small_mass_cutoff=1e-12)
    return p


def assemble(c, case, time=0.0, step0=0):
    dim = c["dim"]
    g = GRIDS[dim][case["grid"]]
    grids = [g, g] if c["bodies"] == "separate" else [g]
    bodies = []
    for i, b in enumerate(case["bodies"]):
        law = frozen_elastic() if c.get("damp_law", "frozen") == "frozen" else ("fluid", dict(K=100.0, viscosity=1.0))
        bodies.append(dict(mp=mp_fields(b), law=law, g=i if c["bodies"] == "separate" else 0, kernel=c["kernel"]))
    forces = []
    if c["gravity"]:
        forces.append(("gravity", dict(gravity=A(case["gravity"]), is_apply_on_grid=c["gravity"] == "grid")))
    solver, state = simple_scene(grids=grids, bodies=bodies, scheme=c["scheme"], dt=case["dt"], params=params_of(c),
                                 forces=forces, time=time, step=step0)
    if c["scheme"] == "usl_aflip":
        for i, b in enumerate(case["bodies"]):
            if "Bp" in b:
                state = set_bp(state, i, b["Bp"])
    return solver, state


@composite
def gen(draw):
    c = pick(draw, *share(POOL))
    dim, gi = c["dim"], c["grid"]
    g = GRIDS[dim][gi]
    nb = 1 if c["bodies"] == "one" else 2
    aff = c["scheme"] == "usl_aflip"
    bodies = [draw_body(draw, c["n"] if i == 0 else 3, g, dim, bp=aff, margin=0.6) for i in range(nb)]
    if c["damp_law"] == "frozen":  # a fluid cannot start at a pressure below minus its bulk modulus
        draw_unit(draw, bodies)
    return dict(cfg=c, grid=gi, bodies=bodies, dt=pick(draw, 1e-3, 1e-4, 0.01), steps=integer(draw, 1, 3),
                gravity=arr(draw, (dim,), -10, 10, levels=41), time=num(draw, 0, 10, 20), step0=integer(draw, 0, 5))


@part(gen, quick=420, thorough=9000, shards=7)
def conservation(case, rec):
    """mass, linear momentum, clock over 1-3 steps for every configuration"""
    c = case["cfg"]
    solver, s0 = assemble(c, case, case["time"], case["step0"])
    dt = case["dt"]
    s = s0
    nb = len(case["bodies"])
    gvec = np.array(case["gravity"]) if c["gravity"] else np.zeros(c["dim"])
    traj = trajectory(solver, s0, case["steps"])
    groups = [list(range(nb))] if c["bodies"] != "separate" else [[i] for i in range(nb)]
    for k in range(case["steps"]):
        a, b = traj[k], traj[k + 1]
        rec.close(b.time, case["time"] + (k + 1) * dt, rtol=1e-12, scale=case["time"] + 1, msg="clock")
        rec.check(int(b.step) == case["step0"] + k + 1, f"step count {int(b.step)} after {k + 1} steps from {case['step0']}")
        rec.close(b.dt, dt, rtol=1e-12, msg="dt")
        for grp in groups:
            P0, P1, sc, M = np.zeros(c["dim"]), np.zeros(c["dim"]), 0.0, 0.0
            for i in grp:
                A0, A1 = state_of(a, i), state_of(b, i)
                rec.same(A1["mass"], A0["mass"], "mass changed")
                P0 = P0 + A0["mass"] @ A0["vel"]
                P1 = P1 + A1["mass"] @ A1["vel"]
                M += A0["mass"].sum()
                sc += np.sum(A0["mass"][:, None] * np.abs(A0["vel"])) + np.sum(np.abs(A1["vel"]) * A1["mass"][:, None])
                sc += dt * np.sum(A0["vol"][:, None, None] * np.abs(A0["stress"])) / GRIDS[c["dim"]][case["grid"]]["h"]
                if "Bp" in A0:
                    sc += np.sum(A0["mass"][:, None, None] * np.abs(A0["Bp"])) * 0.5
            rec.close(P1 - P0, M * gvec * dt, rtol=1e-8, scale=sc + M * np.abs(gvec).max() * dt + 1e-300, msg="momentum")
    rec.nt(sc > 0)
    rec.label(c["scheme"], c["kernel"], f"{c['dim']}d", c["bodies"], f"gravity {c['gravity']}", f"alpha {c['alpha']}", f"n{c['n']}")


EPOOL = [dict(dim=d, grid=(d + i) % 2, kernel=k, scheme=s, alpha=0.0, n=n, bodies=b, gravity=None, mls=m, dyn=True)
         for d in (2, 3) for i, (k, s, n, b, m) in enumerate([
             ("quadratic", "usl", 5, "one", True), ("linear", "usl", 5, "shared", True), ("cubic", "usl", 2, "one", True),
             ("quadratic", "usl_aflip", 5, "one", False), ("cubic", "usl_aflip", 4, "shared", False)])]


@composite
def gen_energy(draw):
    c = pick(draw, *share(EPOOL))
    dim, gi = c["dim"], c["grid"]
    g = GRIDS[dim][gi]
    nb = 1 if c["bodies"] == "one" else 2
    bodies = [draw_body(draw, c["n"], g, dim, stress=False, deform=False, bp=c["scheme"] == "usl_aflip", margin=0.6)
              for i in range(nb)]
    return dict(cfg=c, grid=gi, bodies=bodies, dt=pick(draw, 1e-3, 1e-4), steps=integer(draw, 1, 3))


def angular(x, v, m, B, Dp, dim):
    """Total angular momentum of particles with affine velocity B (compression positive)."""
    x3, v3 = ref.pad3(x), ref.pad3(v)
    Lz = np.einsum("p,pi->i", m, np.cross(x3, v3))
    C = -B * Dp
    eps = np.zeros((3, 3, 3))
    eps[0, 1, 2] = eps[1, 2, 0] = eps[2, 0, 1] = 1
    eps[0, 2, 1] = eps[2, 1, 0] = eps[1, 0, 2] = -1
    # m * sum_w (x_i - x_p) x (C (x_i - x_p)) with second moment Dp
    return Lz + np.einsum("p,ijk,pkj->i", m, eps, C)


@part(gen_energy, quick=200, thorough=4000, shards=4)
def energy(case, rec):
    """PIC steps without stress never add kinetic energy; classic APIC keeps angular momentum"""
    c = case["cfg"]
    dim, h = c["dim"], GRIDS[c["dim"]][case["grid"]]["h"]
    solver, s0 = assemble(c, case)
    traj = trajectory(solver, s0, case["steps"])
    aff = c["scheme"] == "usl_aflip"
    Dp = {"quadratic": 0.25, "cubic": 1 / 3, "linear": 0.25}[c["kernel"]] * h * h
    nb = len(case["bodies"])

    def total(s):
        ke, am, sc = 0.0, np.zeros(3), 0.0
        for i in range(nb):
            d = state_of(s, i)
            B = d.get("Bp", np.zeros((len(d["mass"]), 3, 3)))
            ke += 0.5 * np.sum(d["mass"][:, None] * d["vel"] ** 2)
            if aff:
                ke += 0.5 * Dp * np.sum(d["mass"][:, None, None] * B[:, :dim, :dim] ** 2)
                am = am + angular(d["pos"], d["vel"], d["mass"], B, Dp, dim)
                sc += np.sum(d["mass"] * np.linalg.norm(d["vel"], axis=1) * (np.linalg.norm(d["pos"], axis=1) + h))
                sc += Dp * np.sum(d["mass"][:, None, None] * np.abs(B))
        return ke, am, sc

    prev = total(traj[0])
    for k in range(case["steps"]):
        cur = total(traj[k + 1])
        rec.le(cur[0], prev[0] * (1 + 1e-9) + 1e-300, "kinetic energy grew in a PIC step")
        if aff:
            rec.close(cur[1], prev[1], rtol=1e-8, scale=prev[2] + 1e-300, msg="angular momentum")
        prev = cur
    rec.nt(total(traj[0])[0] > 0)
    rec.label("energy " + c["scheme"], c["kernel"], f"{dim}d")
