"""C04: deformation follows the velocity field."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a particle arrangement with an affine velocity field, or an arbitrary particle state with prior "
        "deformation, advanced 1-4 steps. Non-trivial: the velocity gradient is not zero.")

def squeeze(draw, b, dim):
    """Scale the prior deformation: strongly compressed or expanded material (J from 0.001 to 30)."""
    k = lognum(draw, 0.1 if dim == 3 else 0.03, 3.0 if dim == 3 else 5.0, 64) if boolean(draw) else 1.0
    F = np.array(b["F"])
    F[:, :dim, :dim] *= k
    b["F"] = F.tolist()
    J = np.linalg.det(F)
    b["vol"] = (np.array(b["vol0"]) * np.where(np.abs(J) > 1e-4, np.abs(J), 1.0)).tolist()
    return k


POOL = pool(36, seed=4, dim=[2, 3], grid=[0, 1], kernel=list(KERNELS), mls=[True, False], n=[1, 6], alpha=[0.99, 0.0],
            reset=[True, False])
for _c in POOL:
    _c["mls"] = _c["mls"] or _c["kernel"] == "linear"  # the classic update assumes a constant D_p


@composite
def gen_affine(draw):
    c = pick(draw, *share(POOL))
    dim = c["dim"]
    g = GRIDS[dim][c["grid"]]
    n = c["n"]
    b = draw_body(draw, n, g, dim, stress=False, margin=0.6)
    k = squeeze(draw, b, dim)
    return dict(cfg=c, body=b, squeeze=k, G=arr(draw, (dim, dim), -2, 2), a=arr(draw, (dim,), -1, 1), dt=pick(draw, 1e-2, 1e-3))


def squeezed(case):
    k = case.get("squeeze", 1.0)
    return ["strongly compressed"] if k < 0.5 else ["strongly expanded"] if k > 2 else []


def expect_kinematics(rec, d0, d1, dt, dim, reset, tag=""):
    """F, volume and plane strain from the step's own velocity gradient."""
    L = d1["L"]
    if dim == 2:
        rec.check(np.all(L[:, 2, :] == 0) and np.all(L[:, :, 2] == 0), tag + "out-of-plane velocity gradient in 2D")
    F = (np.eye(3) - L * dt) @ d0["F"]
    J = np.linalg.det(F)
    rec.close(d1["vol"], d0["vol0"] * J, rtol=1e-9, msg=tag + "volume")
    rec.same(d1["vol0"], d0["vol0"], tag + "initial volume changed")
    if reset:
        if dim == 2:
            want = np.stack([np.diag([np.sqrt(j), np.sqrt(j), 1.0]) for j in J])
        else:
            want = np.cbrt(J)[:, None, None] * np.eye(3)
        rec.close(d1["F"], want, rtol=1e-9, msg=tag + "F after shear reset")
    else:
        rec.close(d1["F"], F, rtol=1e-9, msg=tag + "F")
    if dim == 2:
        rec.close(d1["F"][:, 2, 2], np.ones(len(J)), atol=1e-12, msg=tag + "plane strain")
        rec.close(np.abs(d1["F"][:, :2, 2]) + np.abs(d1["F"][:, 2, :2]), np.zeros((len(J), 2)), atol=1e-12, msg=tag + "plane strain shear")


@part(gen_affine, quick=300, thorough=8000, shards=4)
def affine_field(case, rec):
    """affine solver, any arrangement: gradient, F, volume, positions and velocities of one affine field"""
    c, b, dt = case["cfg"], case["body"], case["dt"]
    dim = c["dim"]
    g = GRIDS[dim][c["grid"]]
    G, a = np.array(case["G"]), np.array(case["a"]) * g["h"]
    pos = np.array(b["pos"])
    n = len(pos)
    G3 = np.zeros((3, 3))
    G3[:dim, :dim] = G
    field = lambda x: a + (x - np.array(g["origin"])) @ G.T
    mp = mp_fields(dict(b, vel=field(pos).tolist()))
    solver, s0 = simple_scene(grids=[g], scheme="usl_aflip", dt=dt,
                              bodies=[dict(mp=mp, law=("elastic", dict(E=0.0, nu=0.0, requires_F_reset=c["reset"])), kernel=c["kernel"])],
                              params=dict(alpha=c["alpha"], use_mls_update=c["mls"], cfl_limit=1e3, small_mass_cutoff=1e-14))
    s0 = set_bp(s0, 0, np.tile(-G3, (n, 1, 1)))
    d0, d1 = state_of(s0, 0), None
    s1 = step(solver, s0)
    d1 = state_of(s1, 0)
    sc = np.abs(field(pos)).max() + np.abs(G).max() * g["h"] + 1e-9
    rec.close(d1["L"], np.tile(-G3, (n, 1, 1)), atol=1e-7 * sc / g["h"], rtol=0, msg="velocity gradient")
    rec.close(d1["Bp"], np.tile(-G3, (n, 1, 1)), atol=1e-7 * sc / g["h"], rtol=0, msg="affine part")
    rec.close(d1["vel"], field(pos), atol=1e-7 * sc, rtol=0, msg="velocity")
    rec.close(d1["pos"], pos + dt * field(pos), atol=1e-9 * (np.abs(pos).max() + sc), rtol=0, msg="position")
    expect_kinematics(rec, d0, d1, dt, dim, c["reset"])
    J = np.linalg.det((np.eye(3) + G3 * dt) @ d0["F"])
    rec.close(d1["vol"], d0["vol0"] * J, rtol=1e-6, msg="volume of the field")
    rec.nt(np.abs(G).max() > 0)
    rec.label(c["kernel"], f"{dim}d", "mls" if c["mls"] else "classic", "reset" if c["reset"] else "keep", f"n{n}", *squeezed(case))


LPOOL = [dict(dim=d, kernel=k, alpha=a, scheme=s) for d in (2, 3) for k in KERNELS
         for a, s in ((0.99, "usl"), (0.0, "usl"), (0.5, "usl_aflip"))]


@composite
def gen_lattice(draw):
    c = pick(draw, *share(LPOOL))
    dim = c["dim"]
    return dict(cfg=c, G=arr(draw, (dim, dim), -2, 2), a=arr(draw, (dim,), -1, 1), dt=pick(draw, 1e-2, 1e-3),
                F=arr(draw, (3, 3), -0.3, 0.3))


def lattice(dim, h=0.5):
    """2^dim particles per cell; the grid's nodes that particles inside see are all saturated."""
    m = {2: 8, 3: 7}[dim]
    u = (np.arange(2 * m) + 0.5) / 2
    pts = np.stack(np.meshgrid(*[u] * dim, indexing="ij"), -1).reshape(-1, dim)
    inner = np.all((pts > 3.01) & (pts < m - 3.01), axis=1)
    return pts * h, inner, m, h


@part(gen_lattice, quick=90, thorough=1500, shards=3)
def regular_lattice(case, rec):
    """non-affine transfers inside a regular arrangement recover the gradient, convention and position"""
    c, dt = case["cfg"], case["dt"]
    dim = c["dim"]
    pts, inner, m, h = lattice(dim)
    n = len(pts)
    G, a = np.array(case["G"]), np.array(case["a"])
    G3 = np.zeros((3, 3))
    G3[:dim, :dim] = G
    vel = a + pts @ G.T
    F0 = np.eye(3) + np.array(case["F"])
    if dim == 2:
        F0[2, :] = F0[:, 2] = [0, 0, 1]
    vol0 = h ** dim / 2 ** dim
    mp = dict(pos=pts.tolist(), vel=vel.tolist(), mass=[1.0] * n, vol=[vol0] * n, F=np.tile(F0, (n, 1, 1)).tolist())
    params = dict(alpha=c["alpha"])
    if c["scheme"] == "usl_aflip":
        params.update(cfl_limit=1e3, use_dynamic_alpha=False)
    solver, s0 = simple_scene(grids=[dict(origin=[0.0] * dim, cells=[m] * dim, h=h)], scheme=c["scheme"], dt=dt,
                              bodies=[dict(mp=mp, law=frozen_elastic(), kernel=c["kernel"])], params=params)
    d0 = state_of(s0, 0)
    d1 = state_of(step(solver, s0), 0)
    sc = np.abs(vel).max() + 1e-9
    k = int(inner.sum())
    rec.check(k > 0, "no inner particle (harness)")
    rec.close(d1["L"][inner], np.tile(-G3, (k, 1, 1)), atol=1e-7 * sc / h, rtol=0, msg="lattice velocity gradient")
    if c["kernel"] != "linear" or True:
        rec.close(d1["pos"][inner], (pts + dt * vel)[inner], atol=1e-8 * (sc + m), rtol=0, msg="lattice position")
    expect_kinematics(rec, d0, d1, dt, dim, False, "lattice ")
    rec.nt(np.abs(G).max() > 0)
    rec.label("lattice " + c["scheme"], c["kernel"], f"{dim}d")


HPOOL = pool(21, seed=14, dim=[2, 3], grid=[0, 1], kernel=list(KERNELS), scheme=list(SCHEMES), n=[1, 6], alpha=[0.99, 0.3],
             law=["elastic_reset", "elastic", "fluid", "dp"], store=[True, True, False], gravity=[True, False])


@composite
def gen_history(draw):
    c = pick(draw, *share(HPOOL))
    dim = c["dim"]
    g = GRIDS[dim][c["grid"]]
    b = draw_body(draw, c["n"], g, dim, stress=False, margin=0.6, bp=c["scheme"] == "usl_aflip", speed=0.5)
    k = squeeze(draw, b, dim)
    return dict(cfg=c, body=b, squeeze=k, dt=pick(draw, 1e-2, 1e-3), steps=integer(draw, 1, 4))


@part(gen_history, quick=220, thorough=5000, shards=4)
def histories(case, rec):
    """several steps: F, stored F, volume and shear reset from each step's own velocity gradient"""
    c, b, dt = case["cfg"], case["body"], case["dt"]
    dim = c["dim"]
    g = GRIDS[dim][c["grid"]]
    reset = c["law"] in ("elastic_reset", "fluid")
    law = {"elastic_reset": ("elastic", dict(E=1.0, nu=0.2)), "elastic": ("elastic", dict(E=1.0, nu=0.2, requires_F_reset=False)),
           "fluid": ("fluid", dict(K=1.0, viscosity=0.1)), "dp": ("dp", dict(K=1.0, c0=1.0, rho_0=1e-6))}[c["law"]]
    mp = mp_fields(dict(b, store_F=True)) if c["store"] else mp_fields(b)
    forces = [("gravity", dict(gravity=A([0.3] * dim)))] if c["gravity"] else []
    solver, s0 = simple_scene(grids=[g], scheme=c["scheme"], dt=dt, bodies=[dict(mp=mp, law=law, kernel=c["kernel"])],
                              params=dict(alpha=c["alpha"]), forces=forces)
    if c["scheme"] == "usl_aflip":
        s0 = set_bp(s0, 0, b["Bp"])
    traj = trajectory(solver, s0, case["steps"])
    Fs = np.array(b["F"])
    moved = False
    for k in range(case["steps"]):
        a0, a1 = traj[k].world.material_points[0], traj[k + 1].world.material_points[0]
        d0, d1 = mp_dict(a0), mp_dict(a1)
        expect_kinematics(rec, d0, d1, dt, dim, reset)
        if c["store"]:
            Fs = (np.eye(3) - d1["L"] * dt) @ Fs
            rec.check(a1.F_store_stack is not None, "stored F lost")
            rec.close(a1.F_store_stack, Fs, rtol=1e-9, msg="stored F")
        else:
            rec.check(a1.F_store_stack is None, "stored F appeared")
        moved = moved or np.abs(d1["L"]).max() > 0
    rec.nt(moved)
    rec.label("history " + c["scheme"], c["law"], f"{dim}d", "store" if c["store"] else "no store", *squeezed(case))
