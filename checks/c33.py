"""C33: forces, laws and obstacles written by the user take part in every step like the built-in ones."""
from typing import Tuple

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

import checks.c08 as c08
from lib.pbt import PARTS
PARTS.clear()

RULE = ("A case registers user-written forces (all four hooks), a user-written law and a user-written obstacle between built-in "
        "ones, and runs some steps. Non-trivial: a user-written hook acted on particles, nodes or obstacles that built-in parts "
        "use afterwards.")
ASSUMPTIONS = ["user-written parts follow the signatures and the state tuples of the base classes, and are registered in the "
               "builder's lists together with their states, as the repository's own projects do"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
MOD = 46337          # (MOD-1)*31 stays inside int32


# -------------------------------------------------------------- the user's parts
class ProbeState(hdx.BaseForceState):
    trace: jax.Array      # order of every hook call of every probe, kept by the first probe
    calls: jax.Array      # times each hook ran
    clock: jax.Array      # (time, dt) each hook saw last
    kick: jax.Array       # added to the obstacle's velocity
    spin: jax.Array       # added to the obstacle's angular velocity
    drift: jax.Array      # velocity at which the rigid body is carried
    push: jax.Array       # acceleration of the particles of a body
    drag: jax.Array       # share of the particle velocity lost before the transfer
    field: jax.Array      # position-dependent nodal acceleration
    keep: jax.Array       # share of the momentum kept behind the line
    line: jax.Array       # where the line is
    tune: jax.Array       # factor on the stiffness the law holds


class Probe(hdx.Force):
    f_idx: int = eqx.field(static=True)
    first: int = eqx.field(static=True)
    p_idx: int = eqx.field(static=True)
    g_idx: int = eqx.field(static=True)
    c_idx: int = eqx.field(static=True)
    s_idx: int = eqx.field(static=True)
    rigid: int = eqx.field(static=True)

    def note(self, mechanics, hook, time, dt, logics, couplings):
        fs = list(mechanics.forces)
        me = fs[self.f_idx]
        fs[self.f_idx] = eqx.tree_at(lambda s: (s.calls, s.clock), me, (me.calls.at[hook].add(1), me.clock.at[hook].set(jnp.array([time, dt]))))
        code = (self.f_idx * 4 + hook) * 100 + len(logics) * 10 + len(couplings) + 1
        head = fs[self.first]
        fs[self.first] = eqx.tree_at(lambda s: s.trace, head, (head.trace * 31 + code) % MOD)
        return eqx.tree_at(lambda m: m.forces, mechanics, tuple(fs)), fs[self.f_idx]

    def apply_kinematics(self, world, mechanics, sdf_logics, couplings, dt, time):
        mechanics, me = self.note(mechanics, 0, time, dt, sdf_logics, couplings)
        sd, mps = list(world.sdfs), list(world.material_points)
        if self.s_idx >= 0:
            s = sd[self.s_idx]
            sd[self.s_idx] = eqx.tree_at(lambda q: (q.velocity, q.angular_velocity), s, (s.velocity + me.kick * jnp.cos(time * 100), s.angular_velocity + me.spin))
        if self.rigid >= 0:
            r = mps[self.rigid]
            mps[self.rigid] = eqx.tree_at(lambda q: q.position_stack, r, r.position_stack + me.drift * dt)
        # what a hook leaves in the scratch fields before the step starts must not leak into it
        b = mps[self.p_idx]
        mps[self.p_idx] = eqx.tree_at(lambda q: (q.force_stack, q.L_stack), b, (b.force_stack + 1e3, b.L_stack + 1e2))
        world = eqx.tree_at(lambda w: (w.material_points, w.sdfs), world, (tuple(mps), tuple(sd)))
        return world, mechanics

    def apply_pre_p2g(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        mechanics, me = self.note(mechanics, 1, time, dt, sdf_logics, couplings)
        mps, laws = list(world.material_points), list(mechanics.constitutive_laws)
        b = mps[self.p_idx]
        mps[self.p_idx] = eqx.tree_at(lambda q: (q.force_stack, q.velocity_stack), b,
                                      (b.force_stack + b.mass_stack[:, None] * me.push, b.velocity_stack * (1.0 - me.drag)))
        if self.c_idx >= 0:
            ls = laws[self.c_idx]
            laws[self.c_idx] = eqx.tree_at(lambda q: q.stiff, ls, ls.stiff * me.tune)
        world = eqx.tree_at(lambda w: w.material_points, world, tuple(mps))
        mechanics = eqx.tree_at(lambda m: m.constitutive_laws, mechanics, tuple(laws))
        return world, mechanics, sim_cache

    def apply_grid_forces(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        mechanics, me = self.note(mechanics, 2, time, dt, sdf_logics, couplings)
        grids = list(sim_cache.grids)
        g = grids[self.g_idx]
        x = grid_domains[self.g_idx].position_stack
        grids[self.g_idx] = eqx.tree_at(lambda q: q.force_stack, g, g.force_stack + g.mass_stack[:, None] * me.field * jnp.sin(x))
        return world, mechanics, eqx.tree_at(lambda c: c.grids, sim_cache, tuple(grids))

    def apply_grid_moments(self, world, mechanics, sim_cache, sdf_logics, couplings, grid_domains, dt, time):
        mechanics, me = self.note(mechanics, 3, time, dt, sdf_logics, couplings)
        grids = list(sim_cache.grids)
        g = grids[self.g_idx]
        x = grid_domains[self.g_idx].position_stack[:, 0]
        share = jnp.where((x < me.line)[:, None], me.keep, 1.0)
        grids[self.g_idx] = eqx.tree_at(lambda q: q.moment_nt_stack, g, g.moment_nt_stack * share)
        return world, mechanics, eqx.tree_at(lambda c: c.grids, sim_cache, tuple(grids))


class UserLawState(hdx.ConstitutiveLawState):
    stiff: jax.Array
    age: jax.Array
    work: jax.Array


class UserLaw(hdx.ConstitutiveLaw):
    """Hypoelastic with a decaying stress, a per-particle stiffness and two counters."""
    decay: jax.Array = None

    def update(self, mp_state, law_state, dt):
        de = 0.5 * (mp_state.L_stack + jnp.swapaxes(mp_state.L_stack, 1, 2)) * dt
        s = mp_state.stress_stack * (1.0 - self.decay * dt) + law_state.stiff[:, None, None] * de
        work = law_state.work + jnp.einsum("pij,pij->p", s, de) * mp_state.volume_stack
        return (eqx.tree_at(lambda m: m.stress_stack, mp_state, s),
                UserLawState(stiff=law_state.stiff, age=law_state.age + 1, work=work))


class WavyState(hdx.SDFObjectState):
    height: jax.Array
    mu: jax.Array


class WavySDF(hdx.SDFObjectBase):
    """Ground below a wavy line (constant along any third axis), smoother on one side."""
    wave: jax.Array

    def create_state(self, height, mu, **kw):
        s = super().create_state(**kw)
        return WavyState(center_of_mass=s.center_of_mass, rotation=s.rotation, velocity=s.velocity,
                         angular_velocity=s.angular_velocity, height=height, mu=mu)

    def signed_distance_local(self, sdf_state, p):
        return p[1] - sdf_state.height * jnp.sin(self.wave * p[0])

    def get_surface_friction_local(self, sdf_state, p):
        return sdf_state.mu * (1.0 + 0.5 * jnp.tanh(p[0]))


# ------------------------------------------------------------------------ cases
BUILTIN = ["gravity", "gravity_p", "damping", "collider"]
POOL = pool(70 if THOROUGH else 7, seed=331, dim=[2, 2, 3], scheme=list(SCHEMES), law=["user", "user_reset", "elastic"],
            forces=[["probe"], ["probe", "gravity", "collider", "probe"], ["collider", "probe", "damping"], ["gravity_p", "probe", "probe", "collider"],
                    ["damping", "probe", "gravity"], ["probe", "collider", "gravity_p", "probe", "gravity"], ["collider", "probe", "probe", "probe"]],
            wavy=[True, True, False], rigid=["coupled", "free", None], second=[False, True], shuffled=[False, True], kernel=list(KERNELS), mls=[True, False])


@composite
def gen(draw):
    c = pick(draw, *share(POOL))
    dim = c["dim"]
    gs = [dict(origin=[0.0] * dim, cells=[4, 5, 4][:dim], h=1.0), dict(origin=[0.25] * dim, cells=[5, 4, 4][:dim], h=0.5)]
    nb = 2 if c["second"] else 1
    bodies = []
    for i in range(nb):
        b = draw_body(draw, 3 + i, gs[i], dim, margin=0.8, deform=c["law"] != "user_reset")
        bodies.append(b)
    grid = gs[0]
    sdf = dict(com=[2.0 + num(draw, -0.5, 0.5, 8), num(draw, 0.5, 2.5, 16)] + [1.0] * (dim - 2), vel=arr(draw, (dim,), -1, 1), height=num(draw, 0.1, 0.6, 10),
               wave=num(draw, 0.5, 2.0, 12), mu=num(draw, 0.0, 0.8, 8), radius=num(draw, 0.4, 1.2, 8),
               rot=num(draw, -0.6, 0.6, 12), omega=num(draw, -0.5, 0.5, 8) if dim == 2 else 0.0)
    ops = []
    for k in c["forces"]:
        on = [boolean(draw) for _ in range(4)]
        ops.append(dict(kick=(np.asarray(arr(draw, (dim,), -1, 1)) * on[0]).tolist(), spin=num(draw, -0.5, 0.5, 8) * on[0] * (dim == 2),
                        drift=arr(draw, (dim,), -3, 3), push=(np.asarray(arr(draw, (dim,), -10, 10)) * on[1]).tolist(),
                        drag=num(draw, 0.0, 0.3, 6) * on[1], field=(np.asarray(arr(draw, (dim,), -10, 10)) * on[2]).tolist(),
                        keep=[num(draw, 0.0, 1.2, 12) if on[3] else 1.0 for _ in range(dim)], line=num(draw, 0.5, 3.5, 12) + 0.01,
                        tune=num(draw, 0.9, 1.1, 8) if on[1] else 1.0, vec=arr(draw, (dim,), -10, 10, levels=41), alpha=pick(draw, 0.3, 0.6),
                        mu=pick(draw, 0.5, 1.0, 0.0)))
    return dict(cfg=c, grids=gs[:nb], bodies=bodies, sdf=sdf, ops=ops, steps=integer(draw, 1, 3), dt=pick(draw, 1e-3, 2e-3), time=pick(draw, 0.0, 0.125),
                stiff=np.exp(np.asarray(arr(draw, (3,), np.log(10), np.log(2e3)))).tolist(), decay=num(draw, 0.0, 20.0, 10))


def assemble(case):
    c = case["cfg"]
    dim = c["dim"]
    b = hdx.SimBuilder()
    o = case["sdf"]
    rot = A(o["rot"]) if dim == 2 else A([np.cos(o["rot"] / 2), 0.0, 0.0, np.sin(o["rot"] / 2)])
    kin = dict(center_of_mass=A(o["com"]), velocity=A(o["vel"]), rotation=rot, angular_velocity=A(o["omega"]) if dim == 2 else jnp.zeros(3, FT))
    # an unused built-in obstacle comes first, so that indices matter
    b.add_sdf_object(sdf_logic=hdx.SphereSDF(0.05), center_of_mass=A([-50.0] * dim), velocity=jnp.zeros(dim, FT),
                     angular_velocity=A(0.0) if dim == 2 else jnp.zeros(3, FT))
    if c["wavy"]:
        logic = WavySDF(wave=A(o["wave"]))
        s = b.add_sdf_object(sdf_logic=logic, sdf_state=logic.create_state(height=A(o["height"]), mu=A(o["mu"]), **kin))
    else:
        s = b.add_sdf_object(sdf_logic=hdx.SphereSDF(o["radius"]), **kin)
    r = -1
    if c["rigid"]:
        r = b.add_material_points(position_stack=A(case["bodies"][0]["pos"]) + 0.1, is_rigid=True)
    ps, cs = [], []
    for i, body in enumerate(case["bodies"]):
        g = builder_add_grid(b, case["grids"][i])
        p = b.particle_states.add(make_mp(**mp_fields(body)))
        with quiet():
            if i == 0 and c["law"] != "elastic":
                law = UserLaw(requires_F_reset=c["law"] == "user_reset", decay=A(case["decay"]))
                q = b.add_constitutive_law(law=law, law_state=UserLawState(stiff=A(case["stiff"]), age=jnp.zeros(3, jnp.int32), work=jnp.zeros(3, FT)))
            else:
                q = b.add_constitutive_law(law=make_law("elastic", E=500.0, nu=0.2, requires_F_reset=False))
        b.couple(p_idx=p, g_idx=g, c_idx=q, shapefunction=c["kernel"])
        ps.append(p)
        cs.append(q)
    if c["rigid"] == "coupled":
        b.couple(p_idx=r, g_idx=0, shapefunction="linear")
    first = c["forces"].index("probe")
    for i, (k, op) in enumerate(zip(c["forces"], case["ops"])):
        on = i % len(ps)
        if k == "probe":
            b.force_logics.append(Probe(f_idx=i, first=first, p_idx=ps[on], g_idx=on, c_idx=cs[0] if c["law"] != "elastic" else -1, s_idx=s, rigid=r))
            b.force_states.append(ProbeState(trace=jnp.int32(0), calls=jnp.zeros(4, jnp.int32), clock=jnp.zeros((4, 2), FT),
                                             **{n: A(op[n]) for n in ("kick", "spin" if dim == 2 else "kick", "drift", "push", "drag", "field", "keep", "line", "tune")},
                                             **({} if dim == 2 else dict(spin=jnp.zeros(3, FT)))))
        elif k == "gravity":
            b.add_gravity(gravity=A(op["vec"]))
        elif k == "gravity_p":
            b.add_gravity(gravity=A(op["vec"]), is_apply_on_grid=False, p_idx_list=ps)
        elif k == "damping":
            b.add_damping(alpha=op["alpha"])
        else:
            b.add_sdf_collider(sdf_idx=s, friction=op["mu"])
    order = list(range(len(c["forces"])))
    if c["shuffled"]:
        order = order[1:] + order[:1]
    params = dict(alpha=0.9)
    if c["scheme"] == "usl_aflip":
        params.update(use_mls_update=c["mls"], cfl_limit=50.0)
    b.set_solver(scheme=c["scheme"], f_idx_list=order if c["shuffled"] else None, **params)
    solver, state = b.build(dt=case["dt"], time=case["time"])
    return solver, state, order, params, dict(s=s, r=r, ps=ps, cs=cs, first=first, nl=2, nc=len(b.couplings))


def ref_wall(case, S, h):
    c, o = case["cfg"], case["sdf"]
    dim = c["dim"]

    def fn(x):
        r = x - S["com"]
        a = S["rot"]
        y = r.copy()
        y[:, 0] = np.cos(a) * r[:, 0] + np.sin(a) * r[:, 1]
        y[:, 1] = -np.sin(a) * r[:, 0] + np.cos(a) * r[:, 1]
        if c["wavy"]:
            d = y[:, 1] - o["height"] * np.sin(o["wave"] * y[:, 0])
            n = np.zeros_like(y)
            n[:, 0], n[:, 1] = -o["height"] * o["wave"] * np.cos(o["wave"] * y[:, 0]), 1.0
            n = n / np.linalg.norm(n, axis=1, keepdims=True)
            mu = o["mu"] * (1 + 0.5 * np.tanh(y[:, 0]))
        else:
            q = np.linalg.norm(y, axis=1)
            d, n, mu = q - o["radius"], y / np.maximum(q, 1e-12)[:, None], np.ones(len(x))
        m = n.copy()
        m[:, 0] = np.cos(a) * n[:, 0] - np.sin(a) * n[:, 1]
        m[:, 1] = np.sin(a) * n[:, 0] + np.cos(a) * n[:, 1]
        v = S["vel"] + np.cross(np.array([0, 0, S["omega"]]), ref.pad3(r))[:, :dim]
        return d - h, m, v, mu

    return fn


@part(gen, quick=42, thorough=2100, shards=7)
def scenes(case, rec):
    """user-written forces, law and obstacle among built-in ones, against the dense reference"""
    c, dt = case["cfg"], case["dt"]
    dim, o = c["dim"], case["sdf"]
    solver, s0, order, params, ids = assemble(case)
    traj = trajectory(solver, s0, case["steps"])
    grids = [ref_grid(g) for g in case["grids"]]
    cur = [ref_body(b, c["kernel"], i, dim) for i, b in enumerate(case["bodies"])]
    S = dict(com=np.array(o["com"]), vel=np.array(o["vel"]), rot=o["rot"], omega=o["omega"])
    stiff, age, work = np.array(case["stiff"]), 0, np.zeros(3)
    rigid = np.array(case["bodies"][0]["pos"]) + 0.1
    probes = [i for i in order if c["forces"][i] == "probe"]
    trace, t, nb = 0, case["time"], len(cur)
    touched = False
    for n in range(case["steps"]):
        for i in probes:
            op = case["ops"][i]
            S["vel"] = S["vel"] + np.array(op["kick"]) * np.cos(t * 100)
            S["omega"] = S["omega"] + op["spin"]
            rigid = rigid + np.array(op["drift"]) * dt
        S["com"], S["rot"] = S["com"] + S["vel"] * dt, S["rot"] + S["omega"] * dt
        for hook in range(4):
            for i in probes:
                trace = (trace * 31 + (i * 4 + hook) * 100 + ids["nl"] * 10 + ids["nc"] + 1) % MOD
        for i in probes:
            stiff = stiff * case["ops"][i]["tune"]
        fs = []
        for i in order:
            k, op = c["forces"][i], case["ops"][i]
            if k == "probe":
                def pre(bodies, fext, op=op, on=i % nb):
                    b = bodies[on]
                    fext[on] = fext[on] + b["mass"][:, None] * np.array(op["push"])
                    b["vel"] = b["vel"] * (1 - op["drag"])

                def gforce(gm, gp, gf, op=op, on=i % nb):
                    gf[on] = gf[on] + gm[on][:, None] * np.array(op["field"]) * np.sin(grids[on].nodes)

                def gmom(gm, gn, op=op, on=i % nb):
                    gn[on] = gn[on] * np.where((grids[on].nodes[:, 0] < op["line"])[:, None], np.array(op["keep"]), 1.0)

                fs.append(("hook", dict(pre=pre, gforce=gforce, gmom=gmom)))
            elif k == "gravity":
                fs.append(("gravity_grid", list(range(nb)), np.array(op["vec"])))
            elif k == "gravity_p":
                fs.append(("gravity_p", list(range(nb)), np.array(op["vec"])))
            elif k == "damping":
                fs.append(("damping_grid", list(range(nb)), op["alpha"]))
            else:
                for g in range(nb):
                    fs.append(("collider", [g], ref_wall(case, S, case["grids"][g]["h"]), op["mu"]))
        new, gd = ref.mpm_step(c["scheme"], grids, cur, dt, params, fs)
        # switches decided by rounding
        cut = 1e-7 if c["scheme"] == "usl_aflip" else 1e-12
        if any(np.any(np.abs(m - cut) < 1e-3 * cut) for m in gd["mass"]):
            rec.label("near cutoff")
            return
        if "damping" in c["forces"]:
            for g in range(nb):
                on = gd["mass"][g] > 1e-12
                v = np.abs(gd["mom"][g][on]) / gd["mass"][g][on][:, None]
                if np.any((v < 1e-7) & (np.abs(gd["force"][g][on]) > 0)):
                    rec.label("near sign switch")
                    return
        if "collider" in c["forces"]:
            for g in range(nb):
                d = ref_wall(case, S, case["grids"][g]["h"])(grids[g].nodes)[0]
                touched |= bool(np.any((d <= 0) & (gd["mass"][g] > 1e-9)))
                if np.any(np.abs(d) < 1e-9):
                    rec.label("near contact switch")
                    return
        got = traj[n + 1]
        for i, b in enumerate(case["bodies"]):
            w, old = new[i], cur[i]
            h = case["grids"][i]["h"]
            d = mp_dict(got.world.material_points[ids["ps"][i]])
            de = ref.symm(w["L"]) * dt
            if i == 0 and c["law"] != "elastic":
                w["stress"] = old["stress"] * (1 - case["decay"] * dt) + stiff[:, None, None] * de
                age, work = age + 1, work + np.einsum("pij,pij->p", w["stress"], de) * w["vol"]
                if c["law"] == "user_reset":
                    for q in range(len(w["F"])):
                        w["F"][q] = np.diag([w["J"][q] ** 0.5] * 2 + [1.0]) if dim == 2 else np.eye(3) * w["J"][q] ** (1 / 3)
            else:
                E, nu = 500.0, 0.2
                w["stress"] = old["stress"] + E * nu / ((1 + nu) * (1 - 2 * nu)) * np.trace(de, axis1=1, axis2=2)[:, None, None] * np.eye(3) + E / (1 + nu) * de
            vs = np.abs(w["vel"]).max() + np.abs(old["vel"]).max() + h * np.abs(old["Bp"]).max() + h + np.abs(w["pic"]).max()
            vs += dt * np.abs(old["stress"]).max() * old["vol"].max() / (h * old["mass"].min())
            rec.close(d["vel"], w["vel"], rtol=1e-8, scale=vs, msg=f"body {i} velocity")
            rec.close(d["pos"], w["pos"], rtol=1e-8, scale=np.abs(w["pos"]).max() + h, msg=f"body {i} position")
            rec.close(d["L"], w["L"], rtol=1e-8, scale=np.abs(w["L"]).max() + vs / h, msg=f"body {i} velocity gradient")
            rec.close(d["F"], w["F"], rtol=1e-8, scale=np.abs(w["F"]).max(), msg=f"body {i} F")
            rec.close(d["vol"], w["vol"], rtol=1e-8, scale=np.abs(w["vol"]).max() + old["vol0"].max(), msg=f"body {i} volume")
            rec.close(d["stress"], w["stress"], rtol=1e-7, scale=np.abs(w["stress"]).max() + np.abs(old["stress"]).max() + 2e3 + vs / h, msg=f"body {i} stress")
            rec.same(d["mass"], old["mass"], f"body {i} mass")
            lo, hi = grids[i].origin + 2.01 * h, grids[i].origin + (np.array(grids[i].size) - 3.01) * h
            if np.any(w["pos"] < lo) or np.any(w["pos"] > hi) or np.any(w["J"] <= 0.05) or vs > 1e3 or np.abs(w["L"]).max() * dt > 1:
                rec.label("left the box")
                return
        cur = new
        # the user's states
        for i in probes:
            f = got.mechanics.forces[i]
            rec.check(np.array_equal(N(f.calls), [n + 1] * 4), lambda: f"step {n + 1}: the hooks of force {i} ran {N(f.calls).tolist()} times")
            rec.close(N(f.clock), np.tile([t, dt], (4, 1)), rtol=1e-12, scale=1.0, msg=f"time and step size seen by force {i}")
            for k in ("kick", "drift", "push", "field", "keep", "line", "tune"):
                rec.close(N(getattr(f, k)), np.array(case["ops"][i][k]), rtol=1e-12, scale=1.0, msg=f"force {i} state {k}")
        if probes:
            head = N(got.mechanics.forces[ids["first"]].trace)
            rec.check(int(head) == trace, lambda: f"step {n + 1}: the hooks ran in another order (code {head}, not {trace})")
        sd = got.world.sdfs[ids["s"]]
        rec.close(N(sd.center_of_mass), S["com"], rtol=1e-10, scale=1.0, msg="obstacle position")
        rec.close(N(sd.velocity), S["vel"], rtol=1e-10, scale=1.0, msg="obstacle velocity")
        if dim == 2:
            rec.close(N(sd.rotation), np.array(S["rot"]), rtol=1e-10, scale=1.0, msg="obstacle rotation")
        if c["wavy"]:
            rec.check(isinstance(sd, WavyState), "the obstacle's state changed its type")
            rec.close(N(sd.height), np.array(o["height"]), rtol=1e-12, scale=1.0, msg="obstacle's own field")
        if ids["r"] >= 0 and probes:
            rec.close(N(got.world.material_points[ids["r"]].position_stack), rigid, rtol=1e-10, scale=1.0, msg="carried body")
        if c["law"] != "elastic":
            ls = got.mechanics.constitutive_laws[ids["cs"][0]]
            rec.check(np.all(N(ls.age) == age), lambda: f"step {n + 1}: the law was updated {N(ls.age).tolist()} times")
            rec.close(N(ls.stiff), stiff, rtol=1e-10, scale=np.abs(stiff).max(), msg="law's own field")
            rec.close(N(ls.work), work, rtol=1e-7, scale=np.abs(work).max() + 1.0, msg="law history")
        t = t + dt
    rec.nt(bool(probes))
    rec.label(c["scheme"], f"{dim}d", "law " + c["law"], "obstacle " + ("own" if c["wavy"] else "built-in"), f"rigid {c['rigid']}",
              *(["touching"] if touched else []), *(["shuffled"] if c["shuffled"] else []))
