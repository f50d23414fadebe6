"""C36: parameters may be traced: laws, scenes and element tests built inside jit or vmap equal the ones built from numbers."""
import jax

from functools import lru_cache

from hydraxmpm.sdf.sdfcollection import CompositeSDF

from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c19 as trx

for _name in list(PARTS):
    PARTS.pop(_name)

RULE = ("A batch of 2-4 parameter sets (material, initial state, loading, obstacle, gravity, time step) is built and run under vmap and jit, and one by one from plain numbers. "
        "Non-trivial: the members' results differ from one another.")
ASSUMPTIONS = ["the fluid's parameters, damping factors and whatever else the library declares as plain numbers stay numbers (the fluid's are swapped in afterwards)"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"


def leaves(x):
    return [np.asarray(v) for v in jax.tree_util.tree_leaves(eqx.filter(x, eqx.is_array))]


def stacked(members):
    return jax.tree_util.tree_map(lambda *v: jnp.stack([jnp.asarray(a, dtype=FT) for a in v]), *members)


def arrays(x):
    return jax.tree_util.tree_map(lambda v: jnp.asarray(v, FT), x)


def compare(rec, got, want, what, rtol=1e-8, floor=1e-9):
    g, w = leaves(got), leaves(want)
    rec.check(len(g) == len(w), f"{what}: {len(g)} arrays instead of {len(w)}")
    for i, (a, b) in enumerate(zip(g, w)):
        rec.check(a.shape == b.shape, f"{what}: array {i} has shape {a.shape} instead of {b.shape}")
        if np.issubdtype(b.dtype, np.floating):
            ok = np.isfinite(b)
            rec.check(np.array_equal(np.isfinite(a), ok), f"{what}: array {i} is finite elsewhere")
            rec.close(a[ok], b[ok], rtol=rtol, atol=floor * (1 + np.max(np.abs(b[ok]), initial=0)), msg=f"{what}, array {i}")
        else:
            rec.same(a, b, f"{what}, array {i}")


def member(tree, i):
    return jax.tree_util.tree_map(lambda v: v[i], eqx.filter(tree, eqx.is_array))


# ------------------------------------------------------------- laws
WAYS = [("mcc", "ocr"), ("elastic", ""), ("mcc", "shear"), ("dp", ""), ("mcc", "stress"), ("mcc", "density"), ("mcc", "scalar"), ("mui", "density"), ("fluid", ""), ("mui", ""), ("fluid", "density")]


def build_law(name, f):
    if name != "fluid":
        return make_law(name, **f)
    law = make_law("fluid")
    return eqx.tree_at(lambda q: (q.K, q.viscosity, q.beta), law, (f["K"], f["viscosity"], f["beta"]))


_update = eqx.filter_jit(lambda law, mp, ls, dt: law.update(mp, ls, dt))


def loading(name, via, f, eager=True):
    """a state and three updates from a description; numbers or traced arrays alike"""
    law = build_law(name, f["law"])
    n = f["L"].shape[1]
    with quiet():
        if name == "mcc":
            p = jnp.ones(n) * f["p"]
            if via == "ocr":
                ls, stress, rho = law.create_state_from_ocr(p_stack=p, ocr_stack=jnp.ones(n) * f["ocr"])
            elif via == "scalar":
                ls, stress, rho = law.create_state_from_ocr(p_stack=p, ocr_stack=jnp.asarray(f["ocr"], FT))
            elif via == "shear":
                ls, stress, rho = law.create_state_from_ocr(p_stack=p, ocr_stack=jnp.ones(n) * f["ocr"], q_stack=p * f["eta"])
            elif via == "stress":
                ls, rho = law.create_state_from_stress(p_stack=p, q_stack=p * f["eta"])
                stress = ls.stress_ref_stack
            else:
                rho = law.create_state_from_ocr(p_stack=p, ocr_stack=jnp.ones(n) * f["ocr"])[2]
                ls, _ = law.create_state_from_density(p_stack=p, density_stack=rho)
                stress = ls.stress_ref_stack
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, 3)), stress_stack=stress, density_stack=rho, volume_stack=jnp.ones(n))
        elif name in ("mui", "fluid") and via == "density":
            rho, p = jnp.ones(n) * f["rho"], jnp.ones(n) * f["p"]
            ls = law.create_state_from_density(density_stack=rho, pressure_stack=p)
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, 3)), density_stack=rho, volume_stack=jnp.ones(n), stress_stack=jnp.eye(3)[None] * p[:, None, None])
        elif name == "mui":
            rho = jnp.ones(n) * f["rho"]
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, 3)), density_stack=rho, volume_stack=jnp.ones(n))
            ls = law.create_state(mp)
        elif name == "fluid":
            rho = jnp.ones(n) * f["rho"]
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, 3)), density_stack=rho, volume_stack=jnp.ones(n), stress_stack=jnp.eye(3)[None] * jnp.ones((n, 1, 1)) * f["p"])
            ls = law.create_state(mp)
        elif name == "dp":
            stress = jnp.eye(3)[None] * jnp.ones((n, 1, 1)) * f["p"]
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, 3)), stress_stack=stress, density_stack=jnp.ones(n) * f["rho"], volume_stack=jnp.ones(n))
            ls = law.create_state(stress)
        else:
            mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((n, 3)), density_stack=jnp.ones(n) * f["rho"], volume_stack=jnp.ones(n))
            ls = law.create_state(material_points=mp)
    out = []
    for k in range(f["L"].shape[0]):
        vol = mp.volume_stack * (1 - jnp.trace(f["L"][k], axis1=1, axis2=2) * f["dt"])
        mp = eqx.tree_at(lambda m: (m.L_stack, m.volume_stack), mp, (f["L"][k], vol))
        mp, ls = law.update(mp, ls, f["dt"]) if eager else _update(arrayify(law), mp, ls, jnp.asarray(f["dt"], FT))
        out.append(mp.stress_stack)
    return jnp.stack(out), ls


@lru_cache(None)
def batched(name, via):
    return eqx.filter_jit(jax.vmap(lambda f: loading(name, via, f)))


@lru_cache(None)
def traced(name, via):
    return eqx.filter_jit(lambda f: loading(name, via, f))


def draw_member(draw, name, n):
    base = law_defaults(name)
    law = {k: v * num(draw, 0.75, 1.3, 40) if v else pick(draw, 0.0, 0.0, num(draw, 0.0, 1e3)) if k == "H" else v for k, v in base.items()}
    if name == "dp":
        law["c0"] = pick(draw, 0.0, law["c0"])
        law["mu_1_hat"] = pick(draw, 0.0, law["mu_1_hat"])
    if name == "mcc":
        law["nu"] = num(draw, 0.1, 0.4, 16)
    size = {"mcc": 0.05 * law.get("kap", 0), "dp": 2e-3, "elastic": 1e-2, "fluid": 1e-2, "mui": 1e-2}[name]
    dt = lognum(draw, 1e-4, 1e-1, 16)
    return dict(law=law, p=lognum(draw, 2e3, 2e5, 32) if name == "mcc" else lognum(draw, 10.0, 1000.0, 32), ocr=pick(draw, 1.0, num(draw, 1.0, 4.0, 16)), eta=pick(draw, 0.0, num(draw, 0.05, 2.0, 24)),
                rho={"mui": 2500 * num(draw, 0.5, 0.62, 16), "dp": 900 * num(draw, 1.0, 1.05, 6) * 1.4}.get(name, lognum(draw, 100.0, 3000.0, 16)),
                L=(np.array(arr(draw, (3, n, 3, 3), -1.0, 1.0)) * size / dt).tolist(), dt=dt)


@composite
def gen_laws(draw):
    name, via = pick(draw, *share(WAYS))
    return dict(law=name, via=via, members=[draw_member(draw, name, 2) for _ in range(3)])


def numbers(m):
    """a member as plain numbers, arrays where the library takes arrays"""
    return dict(m, L=jnp.asarray(m["L"], FT))


@part(gen_laws, quick=60, thorough=6000, shards=4)
def laws(case, rec):
    """creation and three updates of every law, all parameters traced"""
    name, via = case["law"], case["via"]
    ms = [numbers(m) for m in case["members"]]
    want = [loading(name, via, m, eager=i == 0) for i, m in enumerate(ms)]
    got = batched(name, via)(stacked(ms))
    one = traced(name, via)(jax.tree_util.tree_map(lambda v: jnp.asarray(v, FT), ms[0]))
    compare(rec, one, want[0], f"{name} traced")
    for i, w in enumerate(want):
        compare(rec, member(got, i), w, f"{name}, member {i} of a batch")
    s = [np.asarray(w[0]) for w in want]
    if np.max(np.abs(s[0] - s[1])) > 1e-6 * np.max(np.abs(s[0])):
        rec.nt()
    rec.label(name, via or "default")


# ------------------------------------------------------------- scenes
SCENES = pool(24 if THOROUGH else 8, seed=36, dim=[2, 3], scheme=list(SCHEMES), kernel=["quadratic", "cubic", "linear"], law=["elastic", "dp", "mcc", "mui"], obstacle=["sphere", "plane", "box", "union"],
              shared=[True, False], gravity=[True, False], domain=[False, True], mu=[0.0, 0.4, None])


def build_scene(c, f):
    dim = c["dim"]
    h = 0.25
    b = hdx.SimBuilder()
    with quiet():
        for i in range(2):
            if i == 0 or not c["shared"]:
                b.add_grid(origin=(0.0,) * dim, end=(1.0,) * dim, cell_size=h)
            q = f["bodies"][i]
            kw = {}
            law = make_law(c["law"], **f["law"])
            n = q["pos"].shape[0]
            if c["law"] == "mcc":
                ls, stress, rho = law.create_state_from_ocr(p_stack=jnp.ones(n) * f["p"], ocr_stack=jnp.ones(n) * f["ocr"])
                kw = dict(law_state=ls)
                pts = dict(stress_stack=stress, density_stack=rho)
            elif c["law"] == "dp":
                stress = jnp.eye(3)[None] * jnp.ones((n, 1, 1)) * f["p"]
                pts = dict(stress_stack=stress, density_stack=jnp.ones(n) * f["rho"])
                kw = dict(law_state=law.create_state(stress))
            else:
                pts = dict(density_stack=jnp.ones(n) * f["rho"])
            b.add_material_points(position_stack=q["pos"], velocity_stack=q["vel"], cell_size=h, ppc=2, **pts)
            if c["law"] == "mui":
                kw = dict(law_state=law.create_state(hdx.MaterialPointState.create(position_stack=q["pos"], density_stack=pts["density_stack"], cell_size=h, ppc=2)))
            b.add_constitutive_law(law=law, **kw)
            b.couple(shapefunction=c["kernel"])
        if c["gravity"]:
            b.add_gravity(gravity=f["gravity"], is_apply_on_grid=dim == 2)
        kind = c["obstacle"]
        sdf = {"sphere": lambda: hdx.SphereSDF(radius=f["size"]), "plane": lambda: hdx.PlaneSDF(normal=f["normal"]), "box": lambda: hdx.BoxSDF(size=jnp.ones(dim) * f["size"]),
               "union": lambda: CompositeSDF(shapes=[hdx.SphereSDF(radius=f["size"]), hdx.BoxSDF(size=jnp.ones(dim) * f["size"])], frictions=jnp.array([0.3, 0.1]) + f["mu"])}[kind]()
        b.add_sdf_object(sdf_logic=sdf, center_of_mass=f["centre"], velocity=f["drift"], angular_velocity=f["spin"])
        b.add_sdf_collider(gap=0.0, **({} if c["mu"] is None else dict(friction=c["mu"])))
        if c["domain"]:
            b.add_sdf_object(sdf_logic=hdx.DomainSDF(origin=(0.0,) * dim, end=(1.0,) * dim, frictions=[f["mu"]] * (2 * dim)))
            b.add_sdf_collider(gap=0.0)
        b.set_solver(scheme=c["scheme"], alpha=0.9)
        solver, state = b.build(dt=1e-3, time=0.5)
        return solver, eqx.tree_at(lambda q: q.dt, state, jnp.asarray(f["dt"], FT))


def play(c, f):
    solver, state = build_scene(c, f)
    out = []
    for _ in range(3):
        state = solver(state)
        out.append([(m.position_stack, m.velocity_stack, m.stress_stack, m.F_stack) for m in state.world.material_points])
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), state.time, state.world.sdfs[0].center_of_mass


@composite
def gen_scenes(draw, pool_of=SCENES):
    c = pick(draw, *share(pool_of))
    dim, name = c["dim"], c["law"]
    ms = []
    for _ in range(2):
        m = draw_member(draw, name, 1)
        nor = np.array(arr(draw, (dim,), -1.0, 1.0)) + np.array([0.0] * (dim - 1) + [1.5])
        ms.append(dict(law=m["law"], p=m["p"], ocr=m["ocr"], rho=m["rho"], dt=lognum(draw, 1e-4, 2e-3, 16),
                       bodies=[dict(pos=arr(draw, (n, dim), 0.05, 0.95), vel=arr(draw, (n, dim), -1.0, 1.0)) for n in (3, 2)],
                       gravity=arr(draw, (dim,), -10.0, 10.0), size=num(draw, 0.1, 0.4, 24), normal=(nor / np.linalg.norm(nor)).tolist(), centre=arr(draw, (dim,), 0.2, 0.8),
                       drift=arr(draw, (dim,), -1.0, 1.0), spin=num(draw, -3, 3, 16) if dim == 2 else arr(draw, (3,), -3.0, 3.0), mu=pick(draw, 0.0, num(draw, 0.0, 1.0, 16))))
    return dict(cfg=c, members=ms)


def as_given(m):
    return jax.tree_util.tree_map(lambda v: jnp.asarray(v, FT) if isinstance(v, list) else v, m, is_leaf=lambda v: isinstance(v, list) and not (v and isinstance(v[0], dict)))


@lru_cache(None)
def batch_scene(key):
    c = dict(key)
    return eqx.filter_jit(jax.vmap(lambda f: play(c, f)))


def play_numbers(c, f):
    solver, state = build_scene(c, f)
    out = []
    for _ in range(3):
        state = step(solver, state)
        out.append([(m.position_stack, m.velocity_stack, m.stress_stack, m.F_stack) for m in state.world.material_points])
    return jax.tree_util.tree_map(lambda *v: jnp.stack(v), *out), state.time, state.world.sdfs[0].center_of_mass


@part(gen_scenes, quick=28, thorough=1500, shards=4)
def scenes(case, rec):
    """a whole scene built and stepped under vmap"""
    c = case["cfg"]
    ms = [as_given(m) for m in case["members"]]
    got = batch_scene(tuple(sorted(c.items())))(stacked(ms))
    want = [play_numbers(c, m) for m in ms]
    for i, w in enumerate(want):
        compare(rec, member(got, i), w, f"member {i} of a batch of scenes", rtol=1e-7, floor=1e-8)
    if np.max(np.abs(leaves(want[0])[0] - leaves(want[1])[0])) > 1e-6:
        rec.nt()
    rec.label(c["scheme"], c["law"], c["obstacle"], f"{c['dim']}d")


# ------------------------------------------------------------- batches of states under one solver
@composite
def gen_states(draw):
    d = draw(gen_scenes(pool_of=SCENES if THOROUGH else SCENES[:4]))
    return dict(d, members=[dict(m, **{k: d["members"][0][k] for k in ("law", "size", "normal", "mu")}) for m in d["members"]])


@lru_cache(None)
def builder(key):
    c = dict(key)
    return eqx.filter_jit(lambda f: build_scene(c, f))


_many = eqx.filter_jit(lambda solver, states: jax.vmap(lambda s: solver(solver(s)))(states))


@part(gen_states, quick=20, thorough=1500, shards=4)
def states(case, rec):
    """one solver stepping a batch of states"""
    c = case["cfg"]
    made = [builder(tuple(sorted(c.items())))(arrays(as_given(m))) for m in case["members"]]
    solver = arrayify(made[0][0])
    batch = jax.tree_util.tree_map(lambda *v: jnp.stack(v), *[arrayify(s) for _, s in made])
    got = _many(solver, batch)
    ends = []
    for i, (_, s) in enumerate(made):
        w = step(solver, step(solver, s))
        compare(rec, member(got, i), eqx.filter(w, eqx.is_array), f"member {i} of a batch of states", rtol=1e-7, floor=1e-8)
        ends.append(np.asarray(w.world.material_points[0].position_stack))
    if np.max(np.abs(ends[0] - ends[1])) > 1e-6:
        rec.nt()
    rec.label(c["scheme"], c["law"], f"{c['dim']}d")


# ------------------------------------------------------------- element tests
TESTS = [dict(law=l, mode=m, static=s) for l, m, s in [("mcc", "drained", False), ("mcc", "undrained", True), ("mcc", "pconst", False), ("elastic", "drained", True)]]


def element(c, f, run=lambda t, mp, ls: t.run(mp_init=mp, law_init=ls)):
    law = make_law(c["law"], **f["law"])
    with quiet():
        if c["law"] == "mcc":
            ls, stress, rho = law.create_state_from_ocr(p_stack=jnp.ones(1) * f["confine"], ocr_stack=jnp.ones(1) * f["ocr"])
            mp = hdx.MaterialPointState.create(stress_stack=stress, density_stack=rho)
        else:
            mp = hdx.MaterialPointState.create(stress_stack=jnp.eye(3)[None] * f["confine"], density_stack=jnp.ones(1) * 1000.0)
            ls = law.create_state(material_points=mp)
        test = hdx.TriaxialTest(solver=hdx.ElementTestDriver(law), confine=f["confine"], axial_rate=jnp.asarray(f["rate"]), num_steps=16, dt=jnp.asarray(f["dt"]), stride=1,
                                is_undrained=c["mode"] == "undrained", is_p_constant=c["mode"] == "pconst", start_static=c["static"])
        mps, lss = run(test, mp, ls)
    return mps.stress_stack, mps.volume_stack, mps.mass_stack, lss


@composite
def gen_element(draw):
    c = pick(draw, *share(TESTS))
    ms = []
    for _ in range(3):
        f = trx.draw_law(draw, c["law"])
        dt = pick(draw, 0.01, 1.0)
        ms.append(dict(law=f, confine=lognum(draw, 3e3, 3e5, 16), ocr=pick(draw, 1.0, num(draw, 1.0, 4.0, 12)), rate={"mcc": 0.02 * f.get("kap", 0), "elastic": 1e-3}[c["law"]] * num(draw, 0.2, 1.0, 8) / dt, dt=dt))
    return dict(cfg=c, members=ms)


_elements = {}


@part(gen_element, quick=16, thorough=400, shards=4)
def elements(case, rec):
    """triaxial tests of a batch of materials and confinements"""
    c = case["cfg"]
    key = tuple(sorted(c.items()))
    if key not in _elements:
        _elements[key] = eqx.filter_jit(jax.vmap(lambda f: element(c, f)))
    got = _elements[key](stacked(case["members"]))
    for i, m in enumerate(case["members"]):
        w = element(c, m, lambda t, mp, ls: trx._run(jax.tree_util.tree_map(lambda v: jnp.asarray(v, FT) if isinstance(v, float) else v, t), mp, ls))
        compare(rec, member(got, i), w, f"{c['law']} test, member {i}", rtol=1e-6, floor=1e-8)
    rec.nt()
    rec.label(c["law"], c["mode"])
