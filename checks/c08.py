"""C08: bodies, grids, laws and forces act exactly where they are wired."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a program of builder calls (grids, deformable, rigid and uncoupled bodies, laws, obstacles, forces and "
        "couplings in a random valid order, with explicit or default indices) run 1-3 steps. Non-trivial: more than one "
        "body, grid, law, force or obstacle is registered.")
ASSUMPTIONS = ["every body couples once and has its own law entry; default index lists are only relied on once "
               "everything they stand for is registered"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


# ------------------------------------------------------------- random programs
@composite
def gen_program(draw):
    dim = pick(draw, 2, 2, 2, 3)
    scheme = pick(draw, *SCHEMES)
    ng = integer(draw, 1, 3)
    nb = integer(draw, 1, 3)
    grids, things = [], []
    for i in range(ng):
        h = pick(draw, 0.5, 0.4, 0.25) if dim == 2 else pick(draw, 0.5, 0.4)
        cells = [pick(draw, 4, 5, 6) for _ in range(dim)] if dim == 2 else [pick(draw, 3, 4) for _ in range(dim)]
        org = [num(draw, -0.5, 0.5, 8) for _ in range(dim)]
        grids.append(dict(origin=org, cells=cells, h=h))
        things.append(["grid", i])
    bodies = []
    for i in range(nb):
        gi = integer(draw, 0, ng - 1)
        g = grids[gi]
        n = integer(draw, 1, 4)
        b = draw_body(draw, n, g, dim, margin=0.6, speed=1.0)
        law = pick(draw, "elastic", "fluid")
        par = dict(E=lognum(draw, 10.0, 1e4, 12), nu=pick(draw, 0.2, 0.0, 0.4)) if law == "elastic" else \
            dict(K=lognum(draw, 10.0, 1e3, 12), viscosity=lognum(draw, 0.01, 10, 12), beta=pick(draw, 7.0, 1.0))
        par["requires_F_reset"] = False
        bodies.append(dict(mp=b, grid=gi, law=law, par=par, rel=pick(draw, 0.9, 1.0), kernel=pick(draw, *KERNELS)))
        things += [["body", i], ["law", i]]
    ns = integer(draw, 0, 2)
    sdfs = []
    for i in range(ns):
        g = grids[integer(draw, 0, ng - 1)]
        mid = np.array(g["origin"]) + 0.5 * g["h"] * np.array(g["cells"])
        com = mid + g["h"] * 2.5 * np.asarray(arr(draw, (dim,), -1, 1))
        if boolean(draw):
            sdfs.append(dict(kind="sphere", radius=num(draw, 0.2, 0.8, 8), com=com.tolist(), vel=arr(draw, (dim,), -1, 1),
                             omega=num(draw, -1, 1, 4) if dim == 2 else arr(draw, (3,), -1, 1)))
        else:
            sdfs.append(dict(kind="plane", normal=unit_vector(arr(draw, (dim,), -1, 1)).tolist(), com=com.tolist(),
                             vel=[0.0] * dim, omega=0.0 if dim == 2 else [0.0] * 3))
        things.append(["sdf", i])
    if boolean(draw):
        things.append(["rigid", 0])
    free = boolean(draw)
    if free:
        things.append(["free", 0])
    if boolean(draw):
        things.append(["unused law", 0])
    order = draw(st.permutations(things))
    forces = []
    for i in range(integer(draw, 0, 4)):
        kind = pick(draw, "gravity", "gravity_p", "damping", "collider", "gravity", "damping_p")
        if kind == "collider" and not ns:
            kind = "gravity"
        f = dict(kind=kind)
        if kind.startswith("gravity"):
            f["vec"] = arr(draw, (dim,), -10, 10, levels=41)
            f["tuple"] = boolean(draw)
        if kind.startswith("damping"):
            f["alpha"] = pick(draw, 0.3, 0.6)
        if kind == "collider":
            f["sdf"] = integer(draw, 0, ns - 1)
            f["friction"] = pick(draw, 0.3, 0.0, 0.8)
        if kind.endswith("_p"):
            f["on"] = "default" if not free and boolean(draw) else sorted(draw(st.sets(st.integers(0, nb - 1))))
        else:
            f["on"] = "default" if boolean(draw) else sorted(draw(st.sets(st.integers(0, ng - 1))))
        forces.append(f)
    # couplings go anywhere after what they name; forces with default lists at the end
    calls = [list(t) for t in order]
    pend = [["couple", i] for i in draw(st.permutations(range(nb)))]
    if any(t[0] == "rigid" for t in order):
        pend.insert(integer(draw, 0, len(pend)), ["couple rigid", 0])
    pend += [["force", i] for i in range(len(forces))]
    return dict(dim=dim, scheme=scheme, grids=grids, bodies=bodies, sdfs=sdfs, forces=forces, calls=calls, late=pend,
                early=boolean(draw), alpha=pick(draw, 0.99, 0.5), mls=boolean(draw), dyn=boolean(draw),
                steps=integer(draw, 1, 2), dt=pick(draw, 2e-3, 1e-3))


def schedule(case):
    """The final call order: with ``early`` the couplings and explicit forces are interleaved."""
    if not case["early"]:
        return case["calls"] + case["late"]
    done, out, late = set(), [], [tuple(x) for x in case["late"]]

    def ready(c):
        k, i = c
        if k == "couple":
            return {("body", i), ("law", i), ("grid", case["bodies"][i]["grid"])} <= done
        if k == "couple rigid":
            return ("rigid", 0) in done and ("grid", 0) in done
        f = case["forces"][i]
        if any(x[0] == "force" and x[1] < i for x in late if x != c):
            return False
        # default lists name everything there is by then, coupled or not
        of = "body" if f["kind"].endswith("_p") else "grid"
        on = range(len(case[{"body": "bodies", "grid": "grids"}[of]])) if f["on"] == "default" else f["on"]
        need = {(of, j) for j in on}
        if f["kind"] == "collider":
            need |= {("sdf", f["sdf"])}
        return need <= done

    for t in case["calls"]:
        out.append(list(t))
        done.add(tuple(t))
        for c in list(late):
            if ready(c):
                out.append(list(c))
                late.remove(c)
    return out + [list(x) for x in late]


def run_program(case):
    """Drive SimBuilder; returns solver, state and the indices it handed out."""
    dim = case["dim"]
    b = hdx.SimBuilder()
    idx = {}
    last = {}
    for k, i in schedule(case):
        if k == "grid":
            idx[k, i] = builder_add_grid(b, case["grids"][i])
        elif k == "body":
            m = mp_fields(case["bodies"][i]["mp"])
            names = dict(pos="position_stack", vel="velocity_stack", mass="mass_stack", vol="volume_stack", vol0="volume0_stack",
                         stress="stress_stack", F="F_stack")
            idx[k, i] = b.add_material_points(**{names[q]: A(v) for q, v in m.items()})
        elif k == "rigid":
            idx[k, i] = b.add_material_points(position_stack=A(case["bodies"][0]["mp"]["pos"]) + 0.05, is_rigid=True)
        elif k == "free":
            m = case["bodies"][-1]["mp"]
            idx[k, i] = b.add_material_points(position_stack=A(m["pos"]), velocity_stack=A(m["vel"]))
        elif k == "law":
            body = case["bodies"][i]
            law = make_law(body["law"], **body["par"])
            with quiet():
                if body["law"] == "fluid":
                    rho = np.array(body["mp"]["mass"]) / np.array(body["mp"]["vol"]) * body["rel"]
                    idx[k, i] = b.add_constitutive_law(law=law, density_stack=A(rho))
                else:
                    idx[k, i] = b.add_constitutive_law(law=law)
        elif k == "unused law":
            idx[k, i] = b.add_constitutive_law(law=make_law("elastic", E=7.0e6, nu=0.1))
        elif k == "sdf":
            o = case["sdfs"][i]
            logic = hdx.SphereSDF(o["radius"]) if o["kind"] == "sphere" else hdx.PlaneSDF(A(o["normal"]))
            idx[k, i] = b.add_sdf_object(sdf_logic=logic, center_of_mass=A(o["com"]), velocity=A(o["vel"]),
                                         angular_velocity=A(o["omega"]))
        elif k == "couple":
            body = case["bodies"][i]
            kw = dict(p_idx=idx["body", i], g_idx=idx["grid", body["grid"]], c_idx=idx["law", i])
            # a default index means the latest entry
            for name, what in (("p_idx", "particle_states"), ("g_idx", "grid_domains"), ("c_idx", "law_logics")):
                if kw[name] == len(getattr(b, what)) - 1 and i % 2 == 0:
                    del kw[name]
            b.couple(shapefunction=body["kernel"], **kw)
        elif k == "couple rigid":
            b.couple(p_idx=idx["rigid", 0], g_idx=idx["grid", 0], shapefunction="linear")
        elif k == "force":
            f = case["forces"][i]
            kw = {}
            if f["on"] != "default":
                if f["kind"].endswith("_p"):
                    kw["p_idx_list"] = [idx["body", j] for j in f["on"]]
                else:
                    kw["g_idx_list"] = [idx["grid", j] for j in f["on"]]
            if f["kind"].startswith("gravity"):
                b.add_gravity(gravity=tuple(f["vec"]) if f["tuple"] else A(f["vec"]), is_apply_on_grid=f["kind"] == "gravity", **kw)
            elif f["kind"].startswith("damping"):
                b.add_damping(alpha=f["alpha"], is_apply_on_grid=f["kind"] == "damping", **kw)
            else:
                if idx["sdf", f["sdf"]] != len(b.sdf_states) - 1 or i % 2:      # the default is the latest obstacle
                    kw["sdf_idx"] = idx["sdf", f["sdf"]]
                b.add_sdf_collider(friction=f["friction"], **kw)
    p = dict(alpha=case["alpha"])
    if case["scheme"] == "usl_aflip":
        p.update(use_mls_update=case["mls"], use_dynamic_alpha=case["dyn"], cfl_limit=50.0)
    b.set_solver(scheme=case["scheme"], **p)
    solver, state = b.build(dt=case["dt"])
    return solver, state, idx, p


def wall(o, dim, h, t):
    """Reference obstacle at time t for nodes of a grid with spacing h."""
    com = np.array(o["com"]) + np.array(o["vel"]) * t

    def fn(x):
        r = x - com
        if o["kind"] == "plane":
            n = np.tile(np.array(o["normal"]) / np.linalg.norm(o["normal"]), (len(x), 1))
            d = r @ n[0]
        else:
            q = np.linalg.norm(r, axis=1)
            d = q - o["radius"]
            n = r / np.maximum(q, 1e-12)[:, None]
        w = np.cross(np.array([0, 0, o["omega"]]) if dim == 2 else np.array(o["omega"]), ref.pad3(r))[:, :dim]
        return d - h, n, np.array(o["vel"]) + w, np.ones(len(x))

    return fn


@part(gen_program, quick=70, thorough=3000, shards=7)
def programs(case, rec):
    """random builder programs against the dense reference wired by hand"""
    dim, dt = case["dim"], case["dt"]
    solver, s0, idx, params = run_program(case)
    nb, ng = len(case["bodies"]), len(case["grids"])
    grids = [ref_grid(g) for g in case["grids"]]
    cur, rho0 = [], []
    for b in case["bodies"]:
        cur.append(ref_body(b["mp"], b["kernel"], b["grid"], dim))
        rho0.append(cur[-1]["mass"] / cur[-1]["vol"] * b["rel"])
    # forces in the order they were registered
    order = [i for k, i in schedule(case) if k == "force"]
    traj = trajectory(solver, s0, case["steps"])
    idle = {k: leaves_of(s0.world.material_points[idx[k]]) for k in idx if k[0] in ("rigid", "free")}
    cut = 1e-7 if case["scheme"] == "usl_aflip" else 1e-12
    for step_no in range(case["steps"]):
        fs = []
        for i in order:
            f = case["forces"][i]
            on = f["on"]
            G = list(range(ng)) if on == "default" else on
            P = list(range(nb)) if on == "default" else on
            if f["kind"] == "gravity":
                fs.append(("gravity_grid", G, np.array(f["vec"])))
            elif f["kind"] == "gravity_p":
                fs.append(("gravity_p", P, np.array(f["vec"])))
            elif f["kind"] == "damping":
                fs.append(("damping_grid", G, f["alpha"]))
            elif f["kind"] == "damping_p":
                fs.append(("damping_p", P, f["alpha"]))
            else:
                for g in G:
                    fs.append(("collider", [g], wall(case["sdfs"][f["sdf"]], dim, case["grids"][g]["h"], (step_no + 1) * dt), f["friction"]))
        new, gd = ref.mpm_step(case["scheme"], grids, cur, dt, params, fs)
        # switches decided by rounding: a node velocity or contact state of exactly zero, a mass at the cut-off
        if any(f["kind"].startswith("damping") for f in case["forces"]):
            for g in range(ng):
                on = gd["mass"][g] > 1e-12
                v = np.abs(gd["mom"][g][on]) / gd["mass"][g][on][:, None]
                if np.any((v < 1e-7) & (np.abs(gd["force"][g][on]) > 0)):
                    rec.label("near sign switch")
                    return
            if any(np.any((np.abs(b["vel"]) < 1e-9)) for b in cur):
                rec.label("near sign switch")
                return
        if any(np.any(np.abs(m - cut) < 1e-3 * cut) for m in gd["mass"]):
            rec.label("near cutoff")
            return
        for i, b in enumerate(case["bodies"]):
            w, old = new[i], cur[i]
            d = mp_dict(traj[step_no + 1].world.material_points[idx["body", i]])
            h = case["grids"][b["grid"]]["h"]
            if b["law"] == "elastic":
                E, nu = b["par"]["E"], b["par"]["nu"]
                de = ref.symm(w["L"]) * dt
                lam, G2 = E * nu / ((1 + nu) * (1 - 2 * nu)), E / (1 + nu)
                w["stress"] = old["stress"] + lam * np.trace(de, axis1=1, axis2=2)[:, None, None] * np.eye(3) + G2 * de
            else:
                r = np.maximum(w["mass"] / w["vol"] / rho0[i], 1e-6)
                pr = np.maximum(b["par"]["K"] * (r ** b["par"]["beta"] - 1), 0)
                w["stress"] = pr[:, None, None] * np.eye(3) + 2 * b["par"]["viscosity"] * ref.dev(ref.symm(w["L"]))
            vs = np.abs(w["vel"]).max() + np.abs(old["vel"]).max() + h * np.abs(old["Bp"]).max() + h + np.abs(w["pic"]).max()
            vs += dt * np.abs(old["stress"]).max() * old["vol"].max() / (h * old["mass"].min())
            name = f"body {i}"
            rec.close(d["vel"], w["vel"], rtol=1e-8, scale=vs, msg=f"{name} velocity")
            rec.close(d["pos"], w["pos"], rtol=1e-8, scale=np.abs(w["pos"]).max() + h, msg=f"{name} position")
            rec.close(d["L"], w["L"], rtol=1e-8, scale=np.abs(w["L"]).max() + vs / h, msg=f"{name} velocity gradient")
            rec.close(d["F"], w["F"], rtol=1e-8, scale=np.abs(w["F"]).max(), msg=f"{name} F")
            rec.close(d["vol"], w["vol"], rtol=1e-8, scale=np.abs(w["vol"]).max() + old["vol0"].max(), msg=f"{name} volume")
            stiff = b["par"].get("E", b["par"].get("K", 0) + b["par"].get("viscosity", 0))
            rec.close(d["stress"], w["stress"], rtol=1e-7, scale=np.abs(w["stress"]).max() + np.abs(old["stress"]).max() + stiff + vs / h,
                      msg=f"{name} stress")
            rec.same(d["mass"], old["mass"], f"{name} mass")
            lo, hi = grids[b["grid"]].origin + 2.01 * h, grids[b["grid"]].origin + (np.array(grids[b["grid"]].size) - 3.01) * h
            if np.any(w["pos"] < lo) or np.any(w["pos"] > hi) or np.any(w["J"] <= 0.05) or vs > 1e3 or np.abs(w["L"]).max() * dt > 1:
                rec.label("left the box")
                return
        cur = new
        for k, before in idle.items():
            for x, y in zip(before, leaves_of(traj[step_no + 1].world.material_points[idx[k]])):
                rec.same(y, x, f"{k[0]} body was altered")
    rec.nt(nb + ng + len(case["forces"]) + len(case["sdfs"]) > 2)
    rec.label(f"{nb} bodies", f"{ng} grids", f"{dim}d", case["scheme"], "early" if case["early"] else "late",
              *[f["kind"] for f in case["forces"]])


def leaves_of(t):
    import jax
    return [np.array(x) for x in jax.tree_util.tree_leaves(t)]


# --------------------------------------------- all laws: together, alone and merged
LAWS = ["dp", "mcc", "mui", "elastic", "fluid"]
RHO = dict(elastic=1000.0, fluid=1000.0, mui=1600.0, dp=950.0, mcc=1000.0)
APOOL = pool(70 if THOROUGH else 7, seed=81, dim=[2, 3], scheme=list(SCHEMES), laws=[["dp", "mcc", "fluid"], ["mui", "dp"], ["mcc", "mui"], ["elastic", "mcc"],
             ["mcc", "mcc"], ["dp", "dp", "elastic"], ["fluid", "mui", "mcc"]], flip=[False, True], rigid=[True, False], kernel=["quadratic", "linear", "cubic"])
MPOOL = pool(70 if THOROUGH else 7, seed=82, dim=[2, 3], scheme=list(SCHEMES), law=LAWS, kernel=list(KERNELS), n=[3, 1])
PAR = dict(dp=[dict(mu_1=0.4), dict(mu_1=0.7, c0=0.0)], mcc=[dict(M=1.0), dict(M=1.3, kap=0.008)], mui=[dict(mu_s=0.2), dict(mu_s=0.4, K=5e4)],
           elastic=[dict(E=1e5), dict(E=4e4)], fluid=[dict(K=1e5), dict(K=3e4, viscosity=5.0)])


def law_body(draw, n, g, dim, law):
    h = g["h"]
    pos = np.array(draw_positions(draw, n, g, margin=0.9))
    vol = h ** dim / 4 * np.asarray(arr(draw, (n,), 0.6, 1.4))
    b = dict(pos=pos.tolist(), vel=np.asarray(arr(draw, (n, dim), -1, 1)).tolist(), vol=vol.tolist(),
             mass=(RHO[law] * vol * np.asarray(arr(draw, (n,), 0.95, 1.1))).tolist())
    if law == "dp":
        b["stress"] = (np.eye(3) * 500.0 * np.asarray(arr(draw, (n, 1, 1), 0.5, 1.5))).tolist()
    return b


def init_of(law, p0):
    return dict(p0=p0) if law == "mcc" else {}


@composite
def gen_alone(draw):
    c = pick(draw, *share(APOOL))
    dim = c["dim"]
    gs = [dict(origin=[0.0] * dim, cells=[4, 5, 4][:dim], h=1.0), dict(origin=[0.25] * dim, cells=[5, 4, 4][:dim], h=0.5),
          dict(origin=[-0.5] * dim, cells=[4, 4, 5][:dim], h=0.8)]
    bodies = [law_body(draw, 2 + i, gs[i], dim, law) for i, law in enumerate(c["laws"])]
    return dict(cfg=c, grids=gs[:len(bodies)], bodies=bodies, p0=[num(draw, 500, 3000, 10) for _ in bodies],
                gravity=arr(draw, (dim,), -10, 10, levels=41), steps=integer(draw, 1, 4), dt=1e-3)


def fields(rec, a, b, what, rtol=1e-9):
    for k in a:
        sc = np.abs(a[k]).max() + {"stress": 10.0, "vel": 1e-2, "L": 1e-2, "pos": 1.0}.get(k, 1e-300)
        rec.close(b[k], a[k], rtol=rtol, scale=sc, msg=f"{what} {k}")


@part(gen_alone, quick=56, thorough=1400, shards=7)
def alone(case, rec):
    """bodies with different laws on different grids, registered in any order, evolve as each would alone"""
    c = case["cfg"]
    dim, n = c["dim"], len(case["bodies"])
    b = hdx.SimBuilder()
    gi, pi, ci = {}, {}, {}
    order = list(range(n))[::-1] if c["flip"] else list(range(n))
    if c["rigid"]:
        r = b.add_material_points(position_stack=A(case["bodies"][0]["pos"]), is_rigid=True)
    for i in order:
        gi[i] = builder_add_grid(b, case["grids"][i])
    mps = {}
    for i in range(n):
        law = c["laws"][i]
        lw = make_law(law, **PAR[law][i % 2])
        ls, mps[i] = law_state(law, lw, make_mp(**mp_fields(case["bodies"][i])), **init_of(law, case["p0"][i]))
        with quiet():
            ci[i] = b.add_constitutive_law(law=lw, law_state=ls)
    for i in order[1:] + order[:1]:
        pi[i] = b.particle_states.add(mps[i])
    if c["rigid"]:
        b.couple(p_idx=r, g_idx=0, shapefunction="linear")
    for i in order:
        b.couple(p_idx=pi[i], g_idx=gi[i], c_idx=ci[i], shapefunction=c["kernel"])
    b.add_gravity(gravity=A(case["gravity"]))
    b.set_solver(scheme=c["scheme"])
    solver, s = b.build(dt=case["dt"])
    out = run(solver, s, case["steps"])
    for i in range(n):
        law = c["laws"][i]
        s1, t1 = simple_scene(grids=[case["grids"][i]], bodies=[dict(mp=mp_fields(case["bodies"][i]), law=(law, PAR[law][i % 2]), kernel=c["kernel"],
                              law_init=init_of(law, case["p0"][i]))], scheme=c["scheme"], dt=case["dt"],
                              forces=[("gravity", dict(gravity=A(case["gravity"])))])
        o1 = run(s1, t1, case["steps"])
        want, got = mp_dict(o1.world.material_points[0]), mp_dict(out.world.material_points[pi[i]])
        if not all(np.all(np.isfinite(v)) for v in want.values()) or np.abs(want["stress"]).max() > 1e6:
            rec.label("unstable")
            return
        fields(rec, want, got, f"{law} (body {i})", rtol=1e-7)
        for x, y in zip(leaves_of(o1.mechanics.constitutive_laws[0]), leaves_of(out.mechanics.constitutive_laws[ci[i]])):
            rec.close(y, x, rtol=1e-7, scale=np.abs(x).max() + 1e-2, msg=f"{law} (body {i}) law state")
    rec.nt()
    rec.label("alone " + "+".join(c["laws"]), c["scheme"], f"{dim}d")


@composite
def gen_merge(draw):
    c = pick(draw, *share(MPOOL))
    dim = c["dim"]
    g = dict(origin=[0.0] * dim, cells=[4, 5, 4][:dim], h=1.0)
    return dict(cfg=c, grid=g, bodies=[law_body(draw, c["n"], g, dim, c["law"]), law_body(draw, 3, g, dim, c["law"])],
                gravity=arr(draw, (dim,), -10, 10, levels=41), steps=integer(draw, 1, 4), dt=1e-3, p0=num(draw, 500, 3000, 10))


@part(gen_merge, quick=56, thorough=1400, shards=7)
def merged(case, rec):
    """two bodies of one law on one grid evolve as one body holding all particles"""
    c = case["cfg"]
    law = c["law"]
    kw = dict(law=(law, {}), kernel=c["kernel"], law_init=init_of(law, case["p0"]))
    sc = dict(grids=[case["grid"]], scheme=c["scheme"], dt=case["dt"], forces=[("gravity", dict(gravity=A(case["gravity"])))])
    a, b = case["bodies"]
    s2, t2 = simple_scene(bodies=[dict(mp=mp_fields(a), **kw), dict(mp=mp_fields(b), **kw)], **sc)
    s1, t1 = simple_scene(bodies=[dict(mp={k: v + b[k] for k, v in mp_fields(a).items()}, **kw)], **sc)
    o1, o2 = run(s1, t1, case["steps"]), run(s2, t2, case["steps"])
    want = mp_dict(o1.world.material_points[0])
    if not all(np.all(np.isfinite(v)) for v in want.values()) or np.abs(want["stress"]).max() > 1e6:
        rec.label("unstable")
        return
    x, y = mp_dict(o2.world.material_points[0]), mp_dict(o2.world.material_points[1])
    fields(rec, want, {k: np.concatenate([x[k], y[k]]) for k in x}, "merged", rtol=1e-7)
    rec.nt()
    rec.label("merged " + law, c["scheme"], c["kernel"], f"{c['dim']}d")


# ------------------------------------------------ solvers of a part of the scene
SPOOL = pool(60 if THOROUGH else 8, seed=83, schemes=[["usl_aflip"], ["usl"], ["usl_aflip", "usl_aflip"], ["usl", "usl_aflip"], ["usl_aflip", "usl"]],
             dim=[2, 2, 3], kernel=["quadratic", "linear", "cubic"], nb=[3, 2], ns=[2, 3, 1], rigid=[False, True])


@composite
def gen_part(draw):
    c = pick(draw, *share(SPOOL))
    dim, nb, ns = c["dim"], c["nb"], c["ns"]
    gs = [dict(origin=[0.0] * dim, cells=[4, 5, 4][:dim], h=1.0), dict(origin=[0.25] * dim, cells=[5, 4, 4][:dim], h=0.5),
          dict(origin=[-0.5] * dim, cells=[4, 4, 5][:dim], h=0.8)]
    bodies = [law_body(draw, 1 + (i * 2 + 1) % 4, gs[i], dim, "elastic") for i in range(nb)]
    sdfs = [dict(com=(np.array(gs[i % nb]["origin"]) + gs[i % nb]["h"] * (2 + 1.5 * np.asarray(arr(draw, (dim,), -1, 1)))).tolist(),
                 radius=num(draw, 0.4, 1.2, 8), vel=arr(draw, (dim,), -2, 2)) for i in range(ns)]
    # every solver gets its own bodies; obstacles and forces may be shared or left out
    perm = draw(st.permutations(range(nb)))
    k = integer(draw, 1, nb - 1)
    parts = []
    for j in range(len(c["schemes"])):
        parts.append(dict(bodies=list(perm[:k] if j == 0 else perm[k:]), sdfs=draw(st.permutations(sorted(draw(st.sets(st.integers(0, ns - 1)))))),
                          gravity=sorted(draw(st.sets(st.integers(0, nb - 1))))))
    return dict(cfg=c, grids=gs[:nb], bodies=bodies, sdfs=sdfs, parts=parts, steps=integer(draw, 1, 3), dt=1e-3,
                gravity=[arr(draw, (dim,), -10, 10, levels=41) for _ in range(nb)], spin=num(draw, -2, 2, 8))


def part_scene(case, bodies, sdfs):
    """Builder with the given bodies and obstacles (their grids, laws and forces); returns it and the index maps."""
    c = case["cfg"]
    dim = c["dim"]
    b = hdx.SimBuilder()
    ids = dict(p={}, b={}, s={}, fg={}, fs={})
    if c["rigid"]:
        b.add_material_points(position_stack=A(case["bodies"][0]["pos"]), is_rigid=True)
    for i in bodies:
        g = builder_add_grid(b, case["grids"][i])
        m = mp_fields(case["bodies"][i])
        ids["p"][i] = b.particle_states.add(make_mp(**m))
        with quiet():
            q = b.add_constitutive_law(law=make_law("elastic", **PAR["elastic"][i % 2]))
        ids["b"][i] = b.couple(p_idx=ids["p"][i], g_idx=g, c_idx=q, shapefunction=c["kernel"])
        ids["fg"][i] = b.add_gravity(gravity=A(case["gravity"][i]), g_idx_list=[g])
        ids["g", i] = g
    for i in sdfs:
        o = case["sdfs"][i]
        ids["s"][i] = b.add_sdf_object(sdf_logic=hdx.SphereSDF(o["radius"]), center_of_mass=A(o["com"]), velocity=A(o["vel"]),
                                       angular_velocity=A(case["spin"]) if dim == 2 else A([0.0, case["spin"], 1.0]))
        ids["fs"][i] = b.add_sdf_collider(sdf_idx=ids["s"][i], friction=0.4)
    return b, ids


@part(gen_part, quick=42, thorough=1400, shards=7)
def partial(case, rec):
    """a solver given some of the couplings, forces and obstacles acts as if the others were not there"""
    c = case["cfg"]
    nb, ns = len(case["bodies"]), len(case["sdfs"])
    b, ids = part_scene(case, range(nb), range(ns))
    for scheme, p in zip(c["schemes"], case["parts"]):
        b.set_solver(scheme=scheme, b_idx_list=[ids["b"][i] for i in p["bodies"]], sdf_idx_list=[ids["s"][i] for i in p["sdfs"]],
                     f_idx_list=[ids["fg"][i] for i in p["gravity"]] + [ids["fs"][i] for i in p["sdfs"]])
    solvers, s0 = b.build(dt=case["dt"])
    solvers = [solvers] if len(c["schemes"]) == 1 else list(solvers)
    for scheme, p, solver in zip(c["schemes"], case["parts"], solvers):
        got = run(solver, s0, case["steps"])
        rb, rids = part_scene(case, p["bodies"], p["sdfs"])
        rb.set_solver(scheme=scheme, f_idx_list=[rids["fg"][i] for i in p["gravity"] if i in p["bodies"]] + [rids["fs"][i] for i in p["sdfs"]])
        s1, t1 = rb.build(dt=case["dt"])
        want = run(s1, t1, case["steps"])
        for i in range(nb):
            g = mp_dict(got.world.material_points[ids["p"][i]])
            if i in p["bodies"]:
                fields(rec, mp_dict(want.world.material_points[rids["p"][i]]), g, f"{scheme} body {i}")
            else:
                for x, y in zip(leaves_of(s0.world.material_points[ids["p"][i]]), leaves_of(got.world.material_points[ids["p"][i]])):
                    rec.same(y, x, f"{scheme}: body {i}, which the solver does not hold")
        rec.check(len(got.world.sdfs) == ns, "the number of obstacles changed")
        for i in range(ns):
            ref_state = want.world.sdfs[rids["s"][i]] if i in p["sdfs"] else s0.world.sdfs[ids["s"][i]]
            for x, y in zip(leaves_of(ref_state), leaves_of(got.world.sdfs[ids["s"][i]])):
                rec.close(y, x, rtol=1e-12, scale=1.0, msg=f"{scheme} obstacle {i}")
        rec.nt(len(p["bodies"]) < nb or len(p["sdfs"]) < ns)
        rec.label("partial " + scheme, f"{len(p['bodies'])} of {nb} bodies", f"{len(p['sdfs'])} of {ns} obstacles")
    # one solver after the other: each leaves the other's bodies and affine states to it
    if len(solvers) == 2 and not set(case["parts"][0]["sdfs"]) & set(case["parts"][1]["sdfs"]):
        s = s0
        for _ in range(case["steps"]):
            for solver in solvers:
                s = run(solver, s, 1)
        for p, solver in zip(case["parts"], solvers):
            alone = run(solver, s0, case["steps"])
            for i in p["bodies"]:
                fields(rec, mp_dict(alone.world.material_points[ids["p"][i]]), mp_dict(s.world.material_points[ids["p"][i]]), f"alternating body {i}")
