"""C34: rough floors carry their prescribed surface, and a batch of collapses runs each member as prescribed."""
import importlib
import os
import shutil
import sys
import tempfile
from functools import lru_cache

from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *

RULE = ("signal and floor: a random spectral signal or floor, probed along its ramp, body and end. Non-trivial: bumps or friction vary over the probes. "
        "collapse: a small column released on a batch of floors (own bumps, friction and tilt per member). Non-trivial: some particles touch the floor's contact layer "
        "and the members end up apart.")
ASSUMPTIONS = ["wavelengths of two cells and more, probes away from the ramp's two corners and from the end of the floor, where the surface is not smooth",
               "columns of 16 to 100 particles, up to 90 steps"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


@lru_cache(None)
def modules():
    d = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "projects", "lorentz_collapse")
    if d not in sys.path:
        sys.path.insert(0, d)
    return importlib.import_module("floor"), importlib.import_module("collapse_setup")


# ------------------------------------------------------------- the signal
def draw_signal(draw, base=None, rms=None, smooth=0.1, harmonics=(1, 3, 8, 16)):
    lo = num(draw, smooth, 3 * smooth, 32)
    return dict(num_harmonics=pick(draw, *harmonics), hurst=num(draw, 0.1, 0.95, 32), lambda_min=lo, lambda_max=lo * num(draw, 1.5, 12.0, 32),
                rms_height=num(draw, 0.005, 0.1, 32) if rms is None else rms, scale_base=num(draw, -0.3, 0.6, 32) if base is None else base,
                key_factor=pick(draw, 0, 0, 1, 2.5, 7, 0.3))


@lru_cache(None)
def maker(n):
    fl, _ = modules()
    return eqx.filter_jit(lambda d: fl.SpectralSetup(num_harmonics=n, **d))


def signal_of(d):
    """a signal made as the projects make them, from traced parameters"""
    return maker(d["num_harmonics"])({k: A(v) for k, v in d.items() if k != "num_harmonics"})


@eqx.filter_jit
def probe_signal(s, x):
    return jax.vmap(s.get_bump_waves)(x), jax.vmap(s)(x), jax.vmap(jax.grad(s.get_bump_waves))(x)


@eqx.filter_jit
def probe_floor(logic, st, p):
    moved = logic.update_kinematics(st, 1e-3)
    return (logic.get_signed_distance_stack(st, p), logic.get_normal_stack(st, p), logic.get_surface_friction_stack(st, p),
            logic.get_velocity_stack(st, p, 1e-3), logic.get_signed_distance_stack(moved, p))


def ref_signal(d):
    """wavenumbers, amplitudes, phases of the description"""
    n = d["num_harmonics"]
    k0, k1 = 2 * np.pi / d["lambda_max"], 2 * np.pi / d["lambda_min"]
    k = k0 * (k1 / k0) ** (np.arange(n) / max(n - 1, 1))
    a = k ** (-d["hurst"] - 0.5)
    a = a * d["rms_height"] / np.sqrt(np.sum(a * a / 2))
    ph = 2 * np.pi * np.arange(n) / max(n - 1, 1) * d["key_factor"]
    return k, a, ph


def ref_waves(d, x, slope=False):
    k, a, ph = ref_signal(d)
    arg = np.multiply.outer(x, k) + ph
    return np.cos(arg) @ (a * k) if slope else np.sin(arg) @ a


@composite
def gen_signal(draw):
    return dict(sig=[draw_signal(draw) for _ in range(pick(draw, 1, 2, 3))], x=arr(draw, (12,), -5.0, 5.0))


@lru_cache(None)
def population(n, keys):
    fl, _ = modules()
    return eqx.filter_jit(lambda vec, x: jax.vmap(lambda v: jax.vmap(fl.SpectralSetup(num_harmonics=n, **dict(zip(keys, v))))(x))(vec))


@part(gen_signal, quick=120, thorough=6000, shards=4, x64=True)
def signal(case, rec):
    """wavelengths, self-affine amplitudes, root mean square and values of a spectral signal"""
    x = np.array(case["x"])
    for d in case["sig"]:
        s = signal_of(d)
        k, a, ph = ref_signal(d)
        rec.close(s.wavenumbers, k, rtol=1e-10, atol=0, msg="wavenumbers")
        rec.close(s.amplitudes, a, rtol=1e-9, atol=0, msg="amplitudes")
        rec.close(jnp.sqrt(jnp.sum(s.amplitudes**2) / 2), d["rms_height"], rtol=1e-10, atol=0, msg="root mean square")
        amp = np.sum(np.abs(a))
        got, val, slope = probe_signal(s, A(x))
        rec.close(got, ref_waves(d, x), rtol=1e-9, atol=1e-9 * amp, msg="bumps")
        rec.close(val, d["scale_base"] + ref_waves(d, x), rtol=1e-9, atol=1e-9 * (amp + 1e-3), msg="signal")
        rec.close(slope, ref_waves(d, x, slope=True), rtol=1e-8, atol=1e-8 * np.sum(np.abs(a * k)), msg="slope")
        if np.ptp(np.asarray(got)) > 0.1 * amp:
            rec.nt()
        rec.label(f"{d['num_harmonics']} harmonics")
    if len(case["sig"]) > 1:
        # a population built at once
        ds = [dict(d, num_harmonics=case["sig"][0]["num_harmonics"]) for d in case["sig"]]
        keys = [q for q in ds[0] if q != "num_harmonics"]
        vec = jnp.asarray([[float(d[q]) for q in keys] for d in ds])
        vals = population(ds[0]["num_harmonics"], tuple(keys))(vec, A(x))
        for i, d in enumerate(ds):
            amp = np.sum(np.abs(ref_signal(d)[1]))
            rec.close(vals[i], d["scale_base"] + ref_waves(d, x), rtol=1e-9, atol=1e-9 * (amp + 1e-3), msg=f"member {i} of a population")
        rec.label("population")


# ------------------------------------------------------------- the floor
def ref_floor(f, x):
    """height, slope and friction at x"""
    b, mu = f["bumps"], f["frictions"]
    rel, past = x - f["x_min"], x > f["x_max"]
    w = np.clip(rel / f["width"], 0, 1)
    dw = np.where((rel > 0) & (rel < f["width"]), 1 / f["width"], 0.0)
    wave, slope = ref_waves(b, rel), ref_waves(b, rel, slope=True)
    h = np.where(past, ref_waves(b, x - f["x_max"]), wave * w)
    s = np.where(past, ref_waves(b, x - f["x_max"], slope=True), slope * w + wave * dw)
    if mu is None:
        m = np.full(len(x), 0.5)
    else:
        m = np.maximum(1e-6, mu["scale_base"] + ref_waves(mu, np.where(past, x - f["x_max"], rel)))
    return b["scale_base"] + h, s, m


@composite
def gen_floor(draw):
    x_min = num(draw, -0.5, 0.5, 32)
    width = pick(draw, 0.5, 0.25, 1.0, 0.1)
    x_max = x_min + width * num(draw, 1.2, 3.0, 32)
    f = dict(x_min=x_min, x_max=x_max, width=width, bumps=draw_signal(draw),
             frictions=None if pick(draw, *[False] * 5, True) else draw_signal(draw, base=num(draw, -0.05, 0.8, 32), rms=num(draw, 0.0, 0.2, 16)))
    u = arr(draw, (4, 8), 0.02, 0.98)
    at = [x_min - 2.0 * np.array(u[0]), x_min + width * np.array(u[1]), x_min + width + (x_max - x_min - width) * np.array(u[2]), x_max + 2.0 * np.array(u[3])]
    return dict(floor=f, x=[float(v) for v in np.concatenate(at)], up=arr(draw, (32,), -0.5, 0.5))


def floor_of(f):
    fl, _ = modules()
    logic = fl.BumpyFloorSDF(x_min=A(f["x_min"]), x_max=A(f["x_max"]), x_transition_width=A(f["width"]))
    fr = None if f["frictions"] is None else signal_of(f["frictions"])
    return logic, logic.create_state(bumps=signal_of(f["bumps"]), frictions=fr)


@part(gen_floor, quick=100, thorough=5000, shards=4, x64=True)
def floor(case, rec):
    """height over the surface, its normal, friction and bounds, along the ramp, the body and past the end"""
    f = case["floor"]
    logic, st = floor_of(f)
    x, up = np.array(case["x"]), np.array(case["up"])
    h, s, mu = ref_floor(f, x)
    p = jnp.asarray(np.stack([x, h + up], axis=1))
    tol = 1e-9 * (1 + np.sum(np.abs(ref_signal(f["bumps"])[1])))
    d, nor, fr, vel, later = probe_floor(logic, st, p)
    rec.close(d, up, rtol=1e-9, atol=tol, msg="height over the floor")
    n = np.stack([-s, np.ones_like(s)], axis=1)
    n = n / np.linalg.norm(n, axis=1, keepdims=True)
    rec.close(nor, n, rtol=0, atol=1e-7, msg="normal")
    rec.close(fr, mu, rtol=1e-8, atol=1e-9, msg="friction")
    rec.close(vel, np.zeros((len(x), 2)), atol=1e-12, msg="velocity of a floor at rest")
    rec.close(later, up, rtol=1e-9, atol=tol, msg="height after a step")
    lo, hi = (np.asarray(v) for v in logic.get_world_aabb(st))
    rec.check(np.all((x >= lo[0]) & (x <= hi[0])), "the bounds leave out part of the floor")
    rec.le(lo[1], np.min(h), "lower bound above the floor", tol=tol)
    rec.le(np.max(h), hi[1], "upper bound below the floor", tol=tol)
    if np.ptp(h) > 1e-3:
        rec.nt()
    rec.label("default friction" if f["frictions"] is None else "clipped friction" if np.any(mu == 1e-6) else "varying friction")


# ------------------------------------------------------------- collapses
CONF = pool(16 if THOROUGH else 4, seed=34, law=["drucker_prager", "drucker_prager", "mu_i"], ppc=[2, 2, 3], cell=[0.05, 0.04], members=[2, 3], nsnap=[3, 2], per=[20, 30], kf=[0, 1],
            nb=[1, 4, 8], nf=[1, 6])


@composite
def gen_collapse(draw):
    c = pick(draw, *share(CONF))
    ms = []
    for _ in range(c["members"]):
        ms.append(dict(bumps=dict(draw_signal(draw, base=pick(draw, 0.0, num(draw, -0.05, 0.05, 40)), rms=pick(draw, 0.0, 0.01, 0.03), smooth=0.2), num_harmonics=c["nb"], key_factor=c["kf"]),
                       frictions=dict(draw_signal(draw, base=num(draw, 0.0, 1.0, 16), rms=pick(draw, 0.0, 0.1), smooth=0.1), num_harmonics=c["nf"], key_factor=c["kf"]),
                       tilt=num(draw, 0.0, 30.0, 32)))
    return dict(cfg=c, members=ms, files=pick(draw, False, True))


def configured(c):
    _, cs = modules()
    s = cs.CollapseSetup()
    s.cell_size, s.ppc, s.law = c["cell"], c["ppc"], c["law"]
    s.origin, s.end = (0.013, -0.2), (1.0, 0.4)
    s.column_width, s.column_height = (0.19, 0.16)
    s.dt = 2.0**-12
    s.total_time, s.output_time = c["nsnap"] * c["per"] * s.dt, c["per"] * s.dt
    return s


def params_of(m, i, s):
    _, cs = modules()
    return cs.CollapseParams(bumps=signal_of(m["bumps"]), frictions=signal_of(m["frictions"]), tilt_angle=jnp.asarray(m["tilt"], FT), sim_id=jnp.asarray(i))


@lru_cache(None)
def template(key):
    c = dict(key)
    s = configured(c)
    with quiet():
        solver, state = s.build_template()
    batch = eqx.filter_jit(lambda p: jax.vmap(lambda q: s.run_with_trajectory(solver, state, q))(p))
    single = eqx.filter_jit(lambda st, n: jax.lax.fori_loop(0, n, lambda i, a: solver(a), st))
    return s, solver, state, batch, single, eqx.filter_jit(lambda st, p: s.run(solver, st, p)), eqx.filter_jit(lambda st: s.run_with_trajectory(solver, st))


@part(gen_collapse, quick=16, thorough=480, shards=4, x64=True)
def collapse(case, rec):
    """each member of a batch follows its own floor, friction and tilt, as if run alone, and obeys the dense reference"""
    c = case["cfg"]
    s, solver, state, batch, single, full, bare = template(tuple(sorted(c.items())))
    # the template
    h, sep = c["cell"], c["cell"] / c["ppc"]
    mp0 = state.world.material_points[0]
    n = [int(np.ceil(0.19 / sep - 1e-9)), int(np.ceil(0.16 / sep - 1e-9))]
    x0 = np.array([[(i + 2) * sep, (j + 2) * sep] for j in range(n[1]) for i in range(n[0])])
    rec.close(mp0.position_stack, x0, atol=1e-9, msg="column of particles")
    rec.close(mp0.mass_stack / mp0.volume_stack, np.full(len(x0), 2650.0), rtol=1e-6, msg="density")
    sv = 2650.0 * 9.81 * np.maximum(0.16 - x0[:, 1], 0.05)
    rec.close(ref.pressure(N(mp0.stress_stack)), sv * 2 / 3, rtol=1e-5, msg="lithostatic pressure")
    # batch
    ps = [params_of(m, i, s) for i, m in enumerate(case["members"])]
    files = tempfile.mkdtemp(prefix="vp_c34_") if case["files"] else None
    try:
        configs = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *ps)
        with quiet():
            if files:
                s.setup_vtk(relative_dir=None, output_dir=files, solver=solver, state=state, batch_configs=configs, N=c["members"])
            traj = batch(configs)
            jax.effects_barrier()
        if files:
            s.vtk_output = None
            written(case, s, state, traj, files, rec)
    finally:
        s.vtk_output = None
        if files:
            shutil.rmtree(files, ignore_errors=True)
    parts = traj.world.material_points[0]
    rec.check(parts.position_stack.shape[:2] == (c["members"], c["nsnap"]), f"a batch of {c['members']} with {c['nsnap']} outputs came out as {parts.position_stack.shape}")
    rec.close(traj.time, np.broadcast_to(np.arange(1, c["nsnap"] + 1) * c["per"] * s.dt, traj.time.shape), rtol=1e-6, msg="output times")
    ends, touched = [], False
    for i, m in enumerate(case["members"]):
        a = np.deg2rad(m["tilt"])
        g = 9.81 * np.array([np.sin(a), -np.cos(a)])
        st = eqx.tree_at(lambda v: (v.world.sdfs[s.bumpy_floor_sdf_idx].bumps, v.world.sdfs[s.bumpy_floor_sdf_idx].frictions, v.mechanics.forces[s.gravity_f_id].gravity), state,
                         (signal_of(m["bumps"]), signal_of(m["frictions"]), A(g)))
        cur = st
        for k in range(c["nsnap"]):
            if k == 1:
                touched |= reference_step(case, m, g, s, solver, cur, single, rec)
            cur = single(cur, c["per"])
            mp = cur.world.material_points[0]
            for name in ("position_stack", "velocity_stack", "F_stack", "stress_stack"):
                want = np.asarray(getattr(mp, name))
                size = np.max(np.abs(want)) + (1e3 if name == "stress_stack" else 1e-2)
                rec.close(getattr(parts, name)[i, k], want, rtol=0, atol=2e-7 * size, msg=f"member {i}, output {k}: {name}")
        rec.finite(mp.position_stack, "positions")
        x = N(mp.position_stack)
        f = dict(x_min=0.203, x_max=1.0, width=0.5, bumps=m["bumps"], frictions=m["frictions"])
        rec.le(np.max(ref_floor(f, x[:, 0])[0] - x[:, 1]), h, "a particle sinks through the floor", tol=1e-6)
        ends.append(x)
        if i == 0:
            with quiet():
                alone = full(state, ps[0])
            rec.close(alone.world.material_points[0].position_stack, cur.world.material_points[0].position_stack, rtol=0, atol=2e-7, msg="plain run")
    # without parameters the template itself runs
    with quiet():
        plain = [full(state, None), bare(state)]
    cur = state
    for k in range(c["nsnap"]):
        cur = single(cur, c["per"])
        rec.close(plain[1].world.material_points[0].position_stack[k], cur.world.material_points[0].position_stack, rtol=0, atol=2e-7, msg=f"template, output {k}")
    rec.close(plain[0].world.material_points[0].position_stack, cur.world.material_points[0].position_stack, rtol=0, atol=2e-7, msg="template, plain run")
    if touched and max(np.max(np.abs(ends[0] - e)) for e in ends[1:]) > 1e-5:
        rec.nt()
    rec.label(c["law"])


def written(case, s, state, traj, root, rec):
    """the files of a batch hold each member's own floor and particles"""
    import pyvista as pv
    c = case["cfg"]
    parts = traj.world.material_points[0]
    want = set()
    for i, m in enumerate(case["members"]):
        steps = [0] + [(k + 1) * c["per"] for k in range(c["nsnap"])]
        want |= {f"sim_{i}/particles/step_{q:05d}.vtp" for q in steps} | {f"sim_{i}/domain/bounds.vtp", f"sim_{i}/floor/step_00000.vtp"}
        for k, q in enumerate(steps):
            mesh = pv.read(os.path.join(root, f"sim_{i}/particles/step_{q:05d}.vtp"))
            x = np.asarray(state.world.material_points[0].position_stack if k == 0 else parts.position_stack[i, k - 1])
            st = np.asarray(state.world.material_points[0].stress_stack if k == 0 else parts.stress_stack[i, k - 1])
            rec.close(np.array(mesh.points)[:, :2], x, rtol=0, atol=1e-6, msg=f"member {i}, file of step {q}: positions")
            pr = np.trace(st, axis1=1, axis2=2) / 3
            rec.close(np.array(mesh.point_data["pressure_stack"]), pr, rtol=1e-5, scale=np.max(np.abs(pr)) + 1e-9, msg=f"member {i}, file of step {q}: pressure")
            rec.close(np.array(mesh.field_data["TimeValue"]), [q * s.dt], rtol=1e-6, atol=1e-9, msg=f"member {i}, file of step {q}: time")
        pts = np.array(pv.read(os.path.join(root, f"sim_{i}/floor/step_00000.vtp")).points, dtype=float)
        f = dict(x_min=0.203, x_max=1.0, width=0.5, bumps=m["bumps"], frictions=m["frictions"])
        step = 1.05 * (s.end[0] - s.origin[0]) / 1000
        ok = np.abs(pts[:, 0] - 1.0) > 1.5 * step
        h, sl, _ = ref_floor(f, pts[:, 0])
        rec.le(np.max(np.abs(pts[ok, 1] - h[ok])), 2 * step * (1 + np.max(np.abs(sl))), f"member {i}: exported floor", tol=1e-6)
        rec.check(np.min(pts[:, 0]) < s.origin[0] + 3 * step and np.max(pts[:, 0]) > s.end[0] - 3 * step, f"member {i}: the exported floor spans {np.min(pts[:, 0])} to {np.max(pts[:, 0])}")
    got = {os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs}
    rec.check(got == want, lambda: f"files {sorted(got ^ want)} are missing or extra")
    rec.label("files")


def reference_step(case, m, g, s, solver, st, one, rec):
    """one step of a member against the dense reference"""
    c = case["cfg"]
    h = c["cell"]
    dom = solver.grid_domains[0]
    G = ref.Grid(dom.origin, dom.cell_size, dom.grid_size)
    body = dict(mp_dict(st.world.material_points[0]), Bp=N(st.mechanics.solvers[0].Bp_stack), Fs=None, kernel="quadratic", g=0)
    f = dict(x_min=0.203, x_max=1.0, width=0.5, bumps=m["bumps"], frictions=m["frictions"])

    def surface(x):
        y, sl, mu = ref_floor(f, x[:, 0])
        n = np.stack([-sl, np.ones_like(sl)], axis=1)
        return x[:, 1] - y - h, n / np.linalg.norm(n, axis=1, keepdims=True), np.zeros_like(x), mu

    walls, ws = solver.sdf_logics[s.domain_sdf_id], st.world.sdfs[s.domain_sdf_id]

    def box(x):
        q = jnp.asarray(x)
        return (N(walls.get_signed_distance_stack(ws, q)) - h, N(walls.get_normal_stack(ws, q)), np.zeros_like(x), N(walls.get_surface_friction_stack(ws, q)))

    fs = [("gravity_grid", [0], g), ("collider", [0], box, 1.0), ("collider", [0], surface, 1.0)]
    new, gd = ref.mpm_step("usl_aflip", [G], [body], s.dt, dict(alpha=0.9), fs)
    dist = surface(G.nodes)[0]
    near = gd["mass"][0] > 1e-9
    if np.any(np.abs(dist[near]) < 1e-9) or np.any(np.abs(G.nodes[near][:, 0] - np.array([[0.203], [0.703], [1.0]])) < 1e-7):
        rec.label("near switch")
        return False
    if np.any(np.abs(gd["mass"][0] - 1e-7) < 1e-10):
        return False
    got = one(st, 1).world.material_points[0]
    w = new[0]
    rec.close(got.velocity_stack, w["vel"], rtol=1e-7, atol=1e-8, scale=np.max(np.abs(w["vel"])) + 0.01, msg="velocity after a step")
    rec.close(got.position_stack, w["pos"], rtol=1e-9, atol=1e-9, msg="position after a step")
    return bool(np.any((dist <= 0) & near))
