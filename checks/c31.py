"""C31: new material points and scenes start consistent, with every given value kept."""
from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c20 as shapes

for _name in ("shapes", "shapes32", "cloud", "sampled"):
    PARTS.pop(_name, None)

RULE = ("A case is a subset of given fields with values, or a scene put together from a random sequence of bodies, laws, obstacles, grids and forces. "
        "Non-trivial: some fields are given and some are left to their defaults.")
FIELDS = ["velocity_stack", "force_stack", "mass_stack", "volume_stack", "volume0_stack", "L_stack", "stress_stack", "F_stack"]


def draw_points(draw):
    n, dim = pick(draw, 1, 2, 5, 17), pick(draw, 2, 3)
    given = [f for f, on in zip(FIELDS, mask(draw, len(FIELDS))) if on]
    opts = {}
    if boolean(draw):
        opts["cell_size"] = lognum(draw, 1e-3, 100.0, 32)
    how = integer(draw, 0, 3)
    if how:
        opts["ppc" if how < 3 else "points_per_cell"] = pick(draw, 1, 2, 4, 9, 2.5, 3.0, 0.5)
    if boolean(draw):
        opts["density_stack"] = "stack"
    return dict(n=n, dim=dim, given=given, opts=opts, store=boolean(draw), data=arr(draw, (n, 40), -1, 1), scale=lognum(draw, 1e-3, 1e4, 16), position=integer(draw, 0, 9) > 0, layout=pick(draw, "jax", "numpy"))


@composite
def gen_points(draw):
    return draw_points(draw)


def values_of(case):
    d = np.array(case["data"], dtype=float) * case["scale"]
    n, dim = case["n"], case["dim"]
    t3 = lambda k: d[:, k:k + 9].reshape(n, 3, 3)
    small = 1e-3 * case["scale"]
    return dict(position_stack=d[:, :dim], velocity_stack=d[:, 3:3 + dim], force_stack=d[:, 6:6 + dim], mass_stack=np.abs(d[:, 9]) + small, volume_stack=np.abs(d[:, 10]) + small, volume0_stack=np.abs(d[:, 11]) + small,
                L_stack=t3(12), stress_stack=t3(21), F_stack=t3(30), density_stack=np.abs(d[:, 39]) + small)


def arguments(case):
    v = values_of(case)
    kw = {f: A(v[f]) for f in case["given"]}
    kw.update(case["opts"])
    if "density_stack" in kw:
        kw["density_stack"] = A(v["density_stack"])
    if case["store"]:
        kw["store_F"] = True
    return v, kw


def expected(case):
    v = values_of(case)
    n, dim = case["n"], case["dim"]
    one = np.ones(n)
    w = {f: v[f] for f in case["given"]}
    o = case["opts"]
    w.setdefault("velocity_stack", np.zeros((n, dim)))
    w.setdefault("force_stack", np.zeros((n, dim)))
    w.setdefault("L_stack", np.zeros((n, 3, 3)))
    w.setdefault("stress_stack", np.zeros((n, 3, 3)))
    w.setdefault("F_stack", np.tile(np.eye(3), (n, 1, 1)))
    w.setdefault("volume_stack", one * o.get("cell_size", 1.0) ** dim / o.get("ppc", o.get("points_per_cell", 4.0)))
    w.setdefault("volume0_stack", w["volume_stack"])
    w.setdefault("mass_stack", w["volume_stack"] * (v["density_stack"] if "density_stack" in o else 1000.0))
    w["F_store_stack"] = w["F_stack"] if case["store"] else None
    w["position_stack"] = v["position_stack"]
    return w


def compare(mp, want, rec, where=""):
    for f, w in want.items():
        g = getattr(mp, f)
        if w is None:
            rec.check(g is None, f"{where}{f} is set")
            continue
        rec.check(g is not None and tuple(g.shape) == w.shape, lambda: f"{where}{f} has shape {None if g is None else g.shape}, not {w.shape}")
        rec.close(g, w, rtol=1e-12 if X64 else 3e-7, scale=np.abs(w).max() + 1e-300, msg=where + f)


@part(gen_points(), quick=200, thorough=4000, shards=2)
def points(case, rec):
    """given fields kept, the others at their documented defaults"""
    v, kw = arguments(case)
    if not case["position"]:
        case = dict(case, n=1, dim=3, given=[], data=[[0.0] * 40], opts={k: q for k, q in case["opts"].items() if k != "density_stack"})
        _, kw = arguments(case)
        mp = hdx.MaterialPointState.create(**kw)
    else:
        p = v["position_stack"]
        mp = hdx.MaterialPointState.create(position_stack=A(p), **kw)
    want = expected(case)
    compare(mp, want, rec)
    rec.check(mp.num_points == case["n"] and mp.dim == case["dim"], "number of points or dimension")
    rec.close(mp.density_stack, want["mass_stack"] / want["volume_stack"], rtol=1e-6, msg="density is mass over volume")
    rec.close(mp.density_ref_stack, want["mass_stack"] / want["volume0_stack"], rtol=1e-6, msg="reference density is mass over initial volume")
    if "stress_stack" not in case["given"]:
        rec.check(not np.any(N(mp.pressure_stack)) and not np.any(N(mp.q_stack) > 1e-12), "new points are not stress free")
    if "F_stack" not in case["given"]:
        rec.check(np.abs(N(mp.eps_stack)).max() < 1e-12, "new points are strained")
    rec.nt(0 < len(case["given"]) < len(FIELDS))
    rec.label(f"{case['dim']}D", *(f for f in case["given"]), "ppc" if "ppc" in case["opts"] else "no ppc")


@composite
def gen_rigid(draw):
    n, dim = pick(draw, 1, 2, 5, 17), pick(draw, 2, 3)
    return dict(n=n, dim=dim, data=arr(draw, (n, 6), -1, 1), scale=lognum(draw, 1e-3, 1e4, 16), position=integer(draw, 0, 5) > 0, normals=boolean(draw))


@part(gen_rigid(), quick=60, thorough=600, shards=1)
def rigid_points(case, rec):
    """rigid points: given positions and normals kept; unit mass, at rest, unknown normals zero, at the origin without positions"""
    n, dim = case["n"], case["dim"]
    d = np.array(case["data"]) * case["scale"]
    kw = {}
    x = np.zeros((1, 3))
    if case["position"]:
        kw["position_stack"] = A(d[:, :dim])
        x = d[:, :dim]
        if case["normals"]:
            kw["normal_stack"] = A(d[:, 3:3 + dim])
    from hydraxmpm.material_points.material_points import RigidMaterialPointState
    mp = RigidMaterialPointState.create(**kw)
    compare(mp, dict(position_stack=x, mass_stack=np.ones(len(x)), velocity_stack=np.zeros(x.shape),
                     normal_stack=d[:, 3:3 + dim] if "normal_stack" in kw else np.zeros(x.shape)), rec, "rigid ")
    rec.check(mp.num_points == len(x) and mp.dim == x.shape[1], "number of rigid points or dimension")
    rec.nt(case["position"] and not case["normals"])
    rec.label(f"{dim}D", "positions" if case["position"] else "origin", "normals" if "normal_stack" in kw else "no normals")


@composite
def gen_scene(draw):
    dim = pick(draw, 2, 3)
    bodies = []
    for _ in range(integer(draw, 1, 3)):
        b = draw_points(draw)
        b["dim"] = dim
        b["rigid"] = integer(draw, 0, 3) == 0
        b["normals"] = boolean(draw)
        b["law"] = pick(draw, "LinearElastic", "NewtonFluid", "MuI", "own")
        b["shape"] = pick(draw, "linear", "quadratic", "cubic")
        bodies.append(b)
    sdfs = []
    for _ in range(integer(draw, 0, 3)):
        sdfs.append(dict(kind=pick(draw, "sphere", "box", "plane", "domain"), data=arr(draw, (14,), -1, 1), given=mask(draw, 4)))
    return dict(dim=dim, bodies=bodies, sdfs=sdfs, order=arr(draw, (12,), 0, 1), clock=pick(draw, None, [0.25, 17, 2e-4], [3.0, 0, 1e-3], [0.0, 40, 5e-4]), scheme=pick(draw, "usl", "usl_aflip", "USL"), forces=[pick(draw, "gravity", "damping", "collider") for _ in range(integer(draw, 0, 3))],
                subset=boolean(draw))


@part(gen_scene(), quick=50, thorough=800, shards=4)
def scenes(case, rec):
    """bodies, laws, obstacles, forces and clock of a scene are the ones given, in the order given"""
    dim = case["dim"]
    b = hdx.SimBuilder()
    lo, hi = (-1.0,) * dim, (2.0,) * dim
    rec.check(b.add_grid(origin=lo, end=hi, cell_size=0.5) == 0, "index of the grid")
    want_bodies, want_laws, want_sdf, want_force = [], [], [], []
    todo = [("body", i) for i in range(len(case["bodies"]))] + [("sdf", i) for i in range(len(case["sdfs"]))]
    todo = [todo[i] for i in np.argsort(case["order"][:len(todo)], kind="stable")]
    coupled = []
    for what, i in todo:
        if what == "body":
            s = case["bodies"][i]
            v, kw = arguments(s)
            if s["rigid"]:
                kw = dict(normal_stack=A(v["velocity_stack"])) if s["normals"] else {}
                j = b.add_material_points(position_stack=A(v["position_stack"]), is_rigid=True, **kw)
                n = s["n"]
                want_bodies.append(dict(position_stack=v["position_stack"], mass_stack=np.ones(n), velocity_stack=np.zeros((n, dim)), normal_stack=v["velocity_stack"] if s["normals"] else np.zeros((n, dim))))
                rec.check(j == len(want_bodies) - 1, "index of a rigid body")
                continue
            j = b.add_material_points(position_stack=A(v["position_stack"]), **kw)
            want_bodies.append(expected(s))
            rec.check(j == len(want_bodies) - 1, "index of a body")
            rho = v["density_stack"]
            if s["law"] == "LinearElastic":
                c = b.add_constitutive_law(law=hdx.LinearElasticLaw(E=1e4, nu=0.2))
                want_laws.append(None)
            elif s["law"] == "NewtonFluid":
                law = hdx.NewtonFluid(K=1e4, viscosity=0.1, beta=1.0)
                c = b.add_constitutive_law(law=law, density_stack=A(rho))
                want_laws.append(law.create_state_from_density(density_stack=A(rho)))
            elif s["law"] == "MuI":
                law = hdx.MuI_LC(mu_s=0.3, mu_d=0.6, I_0=0.3, K=1e4, d_p=0.01, rho_p=2500.0)
                c = b.add_constitutive_law(law=law, density_stack=A(rho))
                want_laws.append(law.create_state_from_density(density_stack=A(rho)))
            else:
                law = hdx.NewtonFluid(K=1e4, viscosity=0.1, beta=1.0)
                own = law.create_state_from_density(density_stack=A(rho))
                c = b.add_constitutive_law(law=law, law_state=own, density_stack=A(rho * 7))
                want_laws.append(own)
            rec.check(c == len(want_laws) - 1, "index of a law")
            k = b.couple(shapefunction=s["shape"]) if case["subset"] else b.couple(p_idx=j, g_idx=0, c_idx=c, shapefunction=s["shape"])
            rec.check(k == len(coupled), "index of a coupling")
            coupled.append((j, c, s["shape"]))
        else:
            s = case["sdfs"][i]
            d = np.array(s["data"])
            logic = hdx.SphereSDF(0.4) if s["kind"] == "sphere" else hdx.BoxSDF(A(np.abs(d[:dim]) + 0.1)) if s["kind"] == "box" else hdx.PlaneSDF(A(unit_vector(d[:dim]))) if s["kind"] == "plane" else hdx.DomainSDF(A(-1.0 - np.abs(d[:dim])), A(2.0 + np.abs(d[3:3 + dim])))
            w = dict(center_of_mass=d[:dim], velocity=d[3:3 + dim], angular_velocity=d[6] if dim == 2 else d[6:9], rotation=d[9] if dim == 2 else shapes.quaternion(d[9:13]))
            on = dict(zip(w, s["given"]))
            if s["kind"] != "domain":
                on["center_of_mass"] = True         # only containers know their own middle
            kw = {k: A(q) for k, q in w.items() if on[k]}
            dflt = dict(center_of_mass=0.5 * (1 + np.abs(d[3:3 + dim]) - np.abs(d[:dim])), velocity=np.zeros(dim), angular_velocity=np.zeros(() if dim == 2 else 3), rotation=np.zeros(()) if dim == 2 else np.array([1.0, 0, 0, 0]))
            out = b.add_sdf_object(sdf_logic=logic, return_state=True, **kw)
            rec.check(out[0] == len(want_sdf), "index of an obstacle")
            want_sdf.append({k: (w if on[k] else dflt)[k] for k in w})
    for f in case["forces"]:
        if f == "collider" and not want_sdf:
            f = "gravity"
        if f == "gravity":
            g = np.arange(1.0, dim + 1)
            j = b.add_gravity(gravity=tuple(g.tolist()))
            want_force.append(("gravity", g))
        elif f == "damping":
            j = b.add_damping(alpha=0.25)
            want_force.append(("alpha", np.array(0.25)))
        else:
            j = b.add_sdf_collider(friction=0.5)
            want_force.append(None)
        rec.check(j == len(want_force) - 1, "index of a force")
    b.set_solver(scheme=case["scheme"], )
    clock = case["clock"]
    solver, state = b.build(*clock) if clock and case["subset"] else b.build(time=clock[0], step=clock[1], dt=clock[2]) if clock else b.build()
    clock = clock or [0.0, 0, 1e-3]
    rec.check(float(state.time) == clock[0] and int(state.step) == clock[1] and abs(float(state.dt) / clock[2] - 1) < 1e-7, lambda: f"the scene starts at time {state.time}, step {state.step}, step size {state.dt} instead of {clock}")
    w = state.world
    rec.check(len(w.material_points) == len(want_bodies), "number of bodies")
    for i, (mp, want) in enumerate(zip(w.material_points, want_bodies)):
        compare(mp, want, rec, f"body {i} ")
    rec.check(len(w.sdfs) == len(want_sdf), "number of obstacles")
    for i, (s, want) in enumerate(zip(w.sdfs, want_sdf)):
        for k, q in want.items():
            g = N(getattr(s, k))
            rec.check(g.shape == q.shape, f"shape of {k} of obstacle {i}")
            rec.close(g, q, rtol=1e-12 if X64 else 1e-6, scale=1.0, msg=f"{k} of obstacle {i}")
    m = state.mechanics
    rec.check(len(m.constitutive_laws) == len(want_laws), "number of laws")
    for g, q in zip(m.constitutive_laws, want_laws):
        rec.check((g is None) == (q is None), "law state")
        for x, y in zip(jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(q)):
            rec.close(x, N(y), rtol=1e-12 if X64 else 1e-6, msg="law state")
    rec.check(len(m.forces) == len(want_force), "number of force states")
    for g, q in zip(m.forces, want_force):
        if q is None:
            rec.check(g is None, "state of a collider")
        else:
            rec.close(N(getattr(g, q[0])), q[1], rtol=1e-7, msg=f"{q[0]} of a force")
    rec.check(len(m.solvers) == len(coupled) == len(solver.couplings), "number of couplings")
    rec.check(all((c.p_idx, c.c_idx, c.g_idx) == (j, k, 0) and c.shape_map.shapefunction == sh for c, (j, k, sh) in zip(solver.couplings, coupled)), "couplings connect the bodies and laws given")
    rec.nt(any(0 < len(s["given"]) < len(FIELDS) for s in case["bodies"]))
    rec.label(f"{dim}D", f"{len(want_bodies)} bodies", f"{len(want_sdf)} obstacles", *(s["law"] for s in case["bodies"]))
