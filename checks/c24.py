"""C24: gravity and damping add exactly their defined forces."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is one to three bodies on one or two grids with gravity and damping on particles or grids (explicit lists, any order), whose "
        "strength the case changes between steps. Non-trivial: at least one force acts on some bodies and not on others, or changes between steps.")
ASSUMPTIONS = ["damping uses the sign of the velocity; a case where a velocity is zero to rounding is skipped and labelled",
               "free fall runs with AFLIP's small-mass cut-off at 1e-14, because dropping light nodes costs a relative error of 1e-6"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
LAWS = ["elastic", "fluid"]


def alter(state, f, name, value):
    return eqx.tree_at(lambda s: getattr(s.mechanics.forces[f], name), state, A(value))


# ------------------------------------------------------------- uniform fall
FALL = pool(80 if THOROUGH else 10, seed=24, dim=[2, 3], scheme=list(SCHEMES), kernel=list(KERNELS), grid=[True, False], law=LAWS, listed=["default", "one", "other"], flip=[0.99, 0.0, 1.0], rigid=[False, True])


@composite
def gen_fall(draw):
    c = dict(pick(draw, *share(FALL)))
    dim = c["dim"]
    g = GRIDS[dim][1]
    n = 5
    steps = integer(draw, 1, 8)
    dt = pick(draw, 1e-3, 1e-2)
    c.update(dt=dt, steps=steps, pos=[draw_positions(draw, n, g, margin=0.7) for _ in range(2)], vel=(np.array(arr(draw, (2, dim), -1, 1)) * 0.2 * g["h"] / (dt * 8)).tolist(),
             mass=[(1000 * g["h"] ** dim / 4 * np.array(arr(draw, (n,), 0.9, 1.1))).tolist() for _ in range(2)],
             gravity=(np.array(arr(draw, (steps, dim), -1, 1)) * 0.2 * g["h"] / (36 * dt ** 2) * (1 if boolean(draw) else 0.01)).tolist(), change=boolean(draw))
    return c


@part(gen_fall, quick=120, thorough=4000, shards=5)
def falling(case, rec):
    """listed bodies in uniform motion accelerate exactly with the acceleration of the moment, the others keep their velocity"""
    dim, dt = case["dim"], case["dt"]
    g = GRIDS[dim][1]
    b = hdx.SimBuilder()
    ids = []
    for i in range(2):
        builder_add_grid(b, g)
        if i == 1 and case["rigid"]:
            b.add_material_points(position_stack=A(case["pos"][0]), is_rigid=True)
        vol = g["h"] ** dim / 4
        p = b.add_material_points(position_stack=A(case["pos"][i]), velocity_stack=A([case["vel"][i]] * 5), mass_stack=A(case["mass"][i]), volume_stack=A([vol] * 5))
        law = make_law(case["law"], **(dict(E=2000.0) if case["law"] == "elastic" else dict(K=2000.0)))
        with quiet():
            if case["law"] == "elastic":
                ls = None
            else:
                ls = law.create_state(b.particle_states[p])
            cc = b.add_constitutive_law(law=law, **({} if ls is None else dict(law_state=ls)))
        b.couple(p_idx=p, g_idx=i, c_idx=cc, shapefunction=case["kernel"])
        ids.append(p)
    kw = {}
    on = {"default": [0, 1], "one": [0], "other": [1]}[case["listed"]]
    if case["listed"] != "default":
        kw = dict(g_idx_list=on) if case["grid"] else dict(p_idx_list=[ids[i] for i in on])
    f = b.add_gravity(gravity=A(case["gravity"][0]), is_apply_on_grid=case["grid"], **kw)
    b.set_solver(scheme=case["scheme"], alpha=case["flip"], **(dict(cfl_limit=1e6, small_mass_cutoff=1e-14) if case["scheme"] == "usl_aflip" else {}))
    solver, s = b.build(dt=dt)
    v = [np.array(q) for q in case["vel"]]
    x = [np.array(q) for q in case["pos"]]
    vmax = np.abs(case["vel"]).max() + dt * np.abs(case["gravity"]).sum() + 1e-9 * g["h"] / dt
    for k in range(case["steps"]):
        gk = np.array(case["gravity"][k if case["change"] else 0])
        s = alter(s, f, "gravity", gk)
        s = step(solver, s)
        for i in range(2):
            a = gk if i in on else 0 * gk
            v[i] = v[i] + a * dt
            x[i] = x[i] + v[i] * dt
            d = mp_dict(s.world.material_points[ids[i]])
            rec.close(d["vel"], np.tile(v[i], (5, 1)), rtol=1e-8, scale=vmax, msg=f"velocity of the {'listed' if i in on else 'other'} body")
            rec.close(d["pos"], x[i], rtol=1e-9, scale=np.abs(x[i]).max() + vmax * dt, msg="position")
            rec.close(d["L"], 0 * d["L"], rtol=0, atol=1e-7 * vmax / g["h"], msg="velocity gradient in free fall")
            want = np.zeros((5, dim)) if case["grid"] or i not in on else np.array(case["mass"][i])[:, None] * gk
            rec.close(N(s.world.material_points[ids[i]].force_stack), want, rtol=1e-10, scale=np.abs(want).max(), msg="force on the particles")
    rec.nt(np.abs(case["gravity"]).max() > 0 and (len(on) == 1 or case["change"]))
    rec.label(case["law"], "on grid" if case["grid"] else "on particles", case["scheme"], "changing" if case["change"] else "constant")


# ------------------------------------------------------ against the reference
ACTS = ["gravity_grid", "gravity_p", "damping_grid", "damping_p"]
MIX = pool(120 if THOROUGH else 12, seed=25, dim=[2, 2, 3], scheme=list(SCHEMES), kernel=list(KERNELS), first=ACTS, second=ACTS + [None], third=ACTS + [None], share=[True, False],
           l1=[0, 1, 2], l2=[0, 1, 2], l3=[0, 1, 2], spare=[False, True], obstacle=[None, "first", "between"])
if not THOROUGH:       # forces of the same kind on the same bodies, in either order
    MIX[0].update(first="gravity_p", second="gravity_p", l1=0, l2=0, third="damping_p", l3=0)
    MIX[1].update(first="damping_p", second="gravity_p", l1=0, l2=0, obstacle="first")
    MIX[2].update(first="gravity_grid", second="gravity_grid", third="damping_grid", obstacle="between")
    MIX[3].update(first="gravity_p", second="damping_p", third="gravity_p", l1=0, l2=0, l3=0)
LISTS = [[0, 1], [1], [0]]


@composite
def gen_forces(draw):
    c = dict(pick(draw, *share(MIX)))
    dim = c["dim"]
    g = GRIDS[dim][1]
    steps = integer(draw, 1, 4)
    dt = pick(draw, 1e-3, 1e-2)
    tiny = pick(draw, 1.0, 1.0, 1e-6)
    sp = 0.03 / dt * tiny
    c["bodies"] = []
    for i in range(2):
        b = draw_body(draw, 5, g, dim, deform=False, bp=c["scheme"] == "usl_aflip", speed=sp, margin=0.7)
        b["stress"] = (np.array(b["stress"]) * g["h"] * sp / dt * np.mean(b["mass"]) / (g["h"] ** dim * 100) * 0.1).tolist()
        c["bodies"].append(b)
    c.update(dt=dt, steps=steps, tiny=tiny, acc=(np.array(arr(draw, (steps, 3, dim), -1, 1)) * 0.01 * g["h"] / dt ** 2 * tiny).tolist(), fac=arr(draw, (steps, 3, dim), 0, 1), zero=integer(draw, 0, 4) == 0, late=boolean(draw), default=boolean(draw),
             junk=arr(draw, (2, 5, dim), -1, 1))
    return c


@part(gen_forces, quick=130, thorough=5000, shards=6)
def forces(case, rec):
    """two or three forces in any order, changing between steps, against the dense reference step"""
    dim, dt = case["dim"], case["dt"]
    g = GRIDS[dim][1]
    h = g["h"]
    ng = 1 if case["share"] else 2
    bodies = []       # coupled after the forces are added
    b = hdx.SimBuilder()
    for _ in range(ng):
        builder_add_grid(b, g)
    for i in range(2):
        with quiet():
            p = b.particle_states.add(make_mp(**mp_fields(case["bodies"][i]), force=case["junk"][i]))
            c = b.add_constitutive_law(law=make_law("elastic", E=0.0, nu=0.0, requires_F_reset=False))
        bodies.append(dict(p_idx=p, g_idx=i if ng == 2 else 0, c_idx=c, shapefunction=case["kernel"]))
        if not case.get("late"):
            b.couple(**bodies.pop())
    if case["spare"]:
        b.add_material_points(position_stack=A(case["bodies"][0]["pos"]), is_rigid=True)
    if case["obstacle"]:       # out of reach; its force has no state of its own
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(0.01), center_of_mass=A(np.full(dim, 1e3)))
    if case["obstacle"] == "first":
        b.add_sdf_collider(sdf_idx=0)
    acts = []
    for name, l in ((case["first"], case["l1"]), (case["second"], case["l2"]), (case["third"], case["l3"])):
        if name is None:
            continue
        on = LISTS[l]
        where, grid = name.split("_")
        if grid == "grid":
            on = on if ng == 2 else [0]
            kw = dict(g_idx_list=on, is_apply_on_grid=True)
        else:
            kw = dict(p_idx_list=on, is_apply_on_grid=False)
        if case.get("default") and on == ([0] if grid == "grid" and ng == 1 else [0, 1]):
            kw = dict(is_apply_on_grid=kw["is_apply_on_grid"])        # every grid or body, by default
        if where == "gravity":
            f = b.add_gravity(gravity=A(np.zeros(dim)), **kw)
        else:
            f = b.add_damping(alpha=0.0, **kw)
        acts.append((f, name, on))
        if case["obstacle"] == "between" and len(acts) == 1:
            b.add_sdf_collider(sdf_idx=0)
    for kw in bodies:
        b.couple(**kw)
    b.set_solver(scheme=case["scheme"], **(dict(cfl_limit=1e6) if case["scheme"] == "usl_aflip" else {}))
    solver, s = b.build(dt=dt)
    if case["scheme"] == "usl_aflip":
        for i in range(2):
            s = set_bp(s, i, case["bodies"][i]["Bp"])
    grids = [ref_grid(g) for _ in range(ng)]
    cur = [ref_body(case["bodies"][i], case["kernel"], i if ng == 2 else 0, dim) for i in range(2)]
    cut = 1e-7 if case["scheme"] == "usl_aflip" else 1e-12
    params = dict(cfl_limit=1e6)
    zero = 1e-7 * case.get("tiny", 1.0)
    for k in range(case["steps"]):
        fs = []
        for j, (f, name, on) in enumerate(acts):
            if name.startswith("gravity"):
                val = np.array(case["acc"][k][j])
                s = alter(s, f, "gravity", val)
            else:
                val = np.array(case["fac"][k][j][0]) * (not case["zero"])
                s = alter(s, f, "alpha", val)
            fs.append((name, on, val))
        new, gd = ref.mpm_step(case["scheme"], grids, cur, dt, params, fs)
        if any(n.startswith("damping") for _, n, _ in acts) and not case["zero"]:
            for i in range(ng):
                m = gd["mass"][i]
                on = m > 1e-12
                v = np.abs(gd["mom"][i][on]) / m[on][:, None]
                if np.any((v < zero) & (np.abs(gd["force"][i][on]) > 0)):
                    rec.label("near sign switch")
                    return
            if any(np.any(np.abs(q["vel"]) < zero) for q in cur):
                rec.label("near sign switch")
                return
        if any(np.any(np.abs(m - cut) < 1e-3 * cut) for m in gd["mass"]):
            rec.label("near cutoff")
            return
        s = step(solver, s)
        ext = [np.zeros((5, dim)), np.zeros((5, dim))]
        for name, on, val in fs:
            for i in on if name.endswith("_p") else ():
                ext[i] = ext[i] + (cur[i]["mass"][:, None] * val if name == "gravity_p" else -val * np.abs(ext[i]) * np.sign(cur[i]["vel"]))
        for i in range(2):
            w = new[i]
            d = mp_dict(s.world.material_points[i])
            vs = np.abs(w["vel"]).max() + np.abs(cur[i]["vel"]).max() + h * np.abs(cur[i]["Bp"]).max() + np.abs(w["pic"]).max() + 1e-9 * h / dt * case.get("tiny", 1.0)
            rec.close(d["vel"], w["vel"], rtol=1e-8, scale=vs, msg=f"velocity of body {i}")
            rec.close(d["pos"], w["pos"], rtol=1e-9, scale=np.abs(w["pos"]).max() + h, msg=f"position of body {i}")
            fx = N(s.world.material_points[i].force_stack)
            rec.close(fx, ext[i], rtol=1e-10, scale=np.abs(ext[i]).max() + 1e-30, msg=f"force on the particles of body {i}")
            rec.same(d["mass"], cur[i]["mass"], "mass")
            lo, hi = grids[0].origin + 2.01 * h, grids[0].origin + (np.array(grids[0].size) - 3.01) * h
            if np.any(w["pos"] < lo) or np.any(w["pos"] > hi) or np.any(w["J"] <= 0.05) or np.abs(w["L"]).max() * dt > 1:
                rec.label("left the box")
                return
        # the reference stress stays (zero stiffness)
        cur = new
    rec.nt(len(acts) > 1 and not case["zero"])
    rec.label(*(n for _, n, _ in acts), case["scheme"], "one grid" if ng == 1 else "two grids", f"{case['steps']} steps", *(["zero damping"] * case["zero"]))


# ---------------------------------------------------------- metamorphic pairs
SAME = pool(60 if THOROUGH else 8, seed=26, pair=["grid-particles", "zero", "sum", "split"], dim=[2, 3], scheme=list(SCHEMES), kernel=list(KERNELS), law=["elastic", "fluid"])


@composite
def gen_same(draw):
    c = dict(pick(draw, *share(SAME)))
    dim = c["dim"]
    g = GRIDS[dim][0]
    dt = 1e-3
    bodies = []
    for i in range(2):
        b = draw_body(draw, 6, g, dim, stress=False, deform=False, speed=1.0, margin=0.6)
        b["mass"] = (1000 * np.array(b["vol"])).tolist()
        bodies.append(b)
    c.update(bodies=bodies, dt=dt, steps=integer(draw, 1, 5), g1=arr(draw, (dim,), -20, 20), g2=arr(draw, (dim,), -20, 20), alpha=num(draw, 0.05, 1.0))
    return c


def build_same(case, forces):
    g = GRIDS[case["dim"]][0]
    bodies = [dict(mp=mp_fields(b), law=(case["law"], dict(E=5e4) if case["law"] == "elastic" else dict(K=5e4)), kernel=case["kernel"]) for b in case["bodies"]]
    return simple_scene(grids=[g], bodies=bodies, scheme=case["scheme"], dt=case["dt"], forces=forces)


@part(gen_same, quick=80, thorough=3000, shards=5)
def pairs(case, rec):
    """grid and particle gravity give the same motion; zero factors change nothing; two gravities add; a split list is the whole"""
    g1, g2, a = A(case["g1"]), A(case["g2"]), float(case["alpha"])
    grav = lambda v, **kw: ("gravity", dict(gravity=v, **kw))
    damp = lambda v, **kw: ("damping", dict(alpha=v, **kw))
    on_p = dict(is_apply_on_grid=False)
    two = {"grid-particles": ([grav(g1)], [grav(g1, **on_p)]),
           "zero": ([grav(g1)], [grav(g1), damp(0.0), grav(0 * g1, **on_p), damp(0.0, **on_p), grav(0 * g1)]),
           "sum": ([grav(g1 + g2)], [grav(g1), grav(g2)]),
           "split": ([grav(g1, **on_p), damp(a, **on_p)], [grav(g1, p_idx_list=[1], **on_p), grav(g1, p_idx_list=[0], **on_p), damp(a, p_idx_list=[0], **on_p), damp(a, p_idx_list=[1], **on_p)])}[case["pair"]]
    if case["pair"] == "split" and any(np.any(np.abs(b["vel"]) < 1e-6) for b in case["bodies"]):
        rec.label("near sign switch")
        return
    ends = []
    for fs in two:
        solver, s = build_same(case, fs)
        ends.append(run(solver, s, case["steps"]))
    for i in range(2):
        x, y = (mp_dict(e.world.material_points[i]) for e in ends)
        tol = 1e-8
        for k, sc in (("vel", 1.0), ("pos", 5.0), ("stress", 5e4 * 0.01), ("F", 1.0), ("vol", 1.0)):
            rec.close(y[k], x[k], rtol=tol, scale=sc + np.abs(x[k]).max(), msg=f"{case['pair']}: {k} of body {i}")
    rec.nt(np.abs(case["g1"]).max() > 1e-3)
    rec.label(case["pair"], case["scheme"], case["law"], f"{case['dim']}D")
