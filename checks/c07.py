"""C07: steps are pure and independent of how they are executed."""
import jax

from lib.pbt import part
from lib.gen import *
from lib.mpm import *
from lib.scenes import *

RULE = ("A case is a scene (laws, kernels, solvers, forces, obstacles, one or two bodies of 1-9 particles, optional rigid "
        "and uncoupled bodies) executed several ways, or traced for its structure. Non-trivial: something moves or is stressed.")
ASSUMPTIONS = ["different compilations may round differently: 1e-7 of the field scale over the few steps compared; "
               "the same compiled step repeated is compared bit for bit"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
OPT = dict(dim=[2, 3], kernel=list(KERNELS), scheme=list(SCHEMES), law=LAWS, n=[5, 1, 9], bodies=["one", "shared", "separate"],
           forces=[["gravity"], [], ["damping"], ["gravity_p", "damping"]], obstacles=[[], ["sphere"], ["plane"], ["plane", "sphere"]],
           alpha=[0.99, 0.5], mls=[True, False], dyn=[True, False], reset=[False, True], h=[1.0, 0.25], extra=["none", "rigid", "rigid"],
           store=[False, True])
POOL = pool(84 if THOROUGH else 9, seed=71, **OPT)
EPOOL = [dict(c, dim=2 if i % 6 != 5 else 3, h=1.0, n=[5, 1, 9][i % 3]) for i, c in enumerate(pool(42 if THOROUGH else 7, seed=72, **OPT))]


def dress(case):
    """Options of this check on top of the shared scenes."""
    c = case["cfg"]
    for b in case["bodies"]:
        if c.get("store"):
            b["store_F"] = True
    if c.get("extra") == "rigid":   # a coupled rigid body and an uncoupled deformable one
        x = np.array(case["bodies"][0]["pos"]) + 0.1 * c["h"]
        v = np.array(case["bodies"][0]["vel"])
        case["extras"] = [dict(rigid=True, pos=x.tolist(), couple=c["kernel"]),
                          dict(rigid=False, pos=x.tolist(), velocity_stack=v.tolist())]
    return case


assemble = build


def leaves(s):
    return [np.array(x) for x in jax.tree_util.tree_leaves(s)]


def paths(s):
    return [jax.tree_util.keystr(p) for p, _ in jax.tree_util.tree_flatten_with_path(s)[0]]


def scales(s):
    """Comparison scale of each leaf."""
    return [max(1e-3, float(np.max(np.abs(x))) if np.size(x) else 1.0) for x in leaves(s)]


def like(rec, a, b, what, rtol=1e-7):
    la, lb = leaves(a), leaves(b)
    rec.check(jax.tree_util.tree_structure(a) == jax.tree_util.tree_structure(b), f"{what}: the state's structure differs")
    for p, x, y, s in zip(paths(a), la, lb, scales(a)):
        rec.check(x.shape == y.shape and x.dtype == y.dtype, f"{what}: {p} is {y.dtype}{y.shape} instead of {x.dtype}{x.shape}")
        if ".pos" in p or "position" in p:
            s = 1.0
        if "stress" in p or "force" in p:
            s = max(s, 1.0)
        rec.close(y, x, rtol=rtol, scale=s, msg=f"{what}: {p}")


def calm(s, case):
    for x in leaves(s):
        if not np.all(np.isfinite(x)) or (x.size and np.max(np.abs(x)) > 1e7):
            return False
    for i, b in enumerate(case["bodies"]):
        if np.abs(N(s.world.material_points[i].position_stack) - np.array(b["pos"])).max() > 1.2 * case["grid"]["h"]:
            return False
    return True


@composite
def gen_exec(draw):
    case = dress(draw_scene(draw, pick(draw, *share(POOL))))
    case["steps"] = integer(draw, 2, 5)
    case["cut"] = integer(draw, 1, case["steps"] - 1)
    case["time"] = num(draw, 0, 5, 10)
    return case


_scan = eqx.filter_jit(lambda solver, state, xs: jax.lax.scan(lambda s, _: (solver(s), s), state, xs))


@part(gen_exec, quick=90, thorough=2100, shards=9)
def execution(case, rec):
    """stepwise, in a loop, in a scan, through a restart: the same trajectory; repeated and undisturbed bit for bit"""
    solver, s0 = assemble(case)
    solver, s0 = arrayify(solver), arrayify(s0)
    n = case["steps"]
    before = leaves(s0)
    traj = [s0]
    for _ in range(n):
        traj.append(step(solver, traj[-1]))
    for p, x, y in zip(paths(s0), before, leaves(s0)):
        rec.same(y, x, f"the input state's {p} was modified by stepping")
    again = step(solver, s0)
    for p, x, y in zip(paths(s0), leaves(traj[1]), leaves(again)):
        rec.same(y, x, f"the same step repeated: {p}")
    if not calm(traj[-1], case):
        rec.label("unstable")
        return
    like(rec, traj[-1], run(solver, s0, n), "compiled loop")
    k = case["cut"]
    mid = jax.tree_util.tree_map(lambda x: jnp.asarray(np.array(x)), traj[k])
    like(rec, traj[-1], run(solver, mid, n - k), "restart")
    fin, hist = _scan(solver, s0, jnp.arange(5))
    for j in range(min(n, 5)):
        like(rec, traj[j], jax.tree_util.tree_map(lambda x: x[j], hist), f"scan, step {j}")
    if n == 5:
        like(rec, traj[-1], fin, "scan, final state")
    rec.nt()
    c = case["cfg"]
    rec.label(c["law"], c["scheme"], c["kernel"], f"{c['dim']}d", f"n{c['n']}")


@composite
def gen_eager(draw):
    case = dress(draw_scene(draw, pick(draw, *share(EPOOL))))
    case["steps"] = integer(draw, 1, 2)
    case["kick"] = arr(draw, (6,), -1, 1)
    return case


def disturb(s, case):
    """Another state of the same scene: obstacles, bodies, forces and clock elsewhere."""
    h, k = case["grid"]["h"], np.array(case["kick"])
    dim = case["cfg"]["dim"]
    sd = []
    for o in s.world.sdfs:
        rot = o.rotation + 0.7 * k[3] if dim == 2 else A(np.roll(N(o.rotation), 1))
        sd.append(eqx.tree_at(lambda q: (q.center_of_mass, q.velocity, q.angular_velocity, q.rotation), o,
                              (o.center_of_mass + A(0.8 * h * k[:dim]), o.velocity + A(k[:dim]), o.angular_velocity * 0.5 + 0.3, rot)))
    mps = [m if not hasattr(m, "stress_stack") else
           eqx.tree_at(lambda q: (q.position_stack, q.velocity_stack, q.stress_stack), m,
                       (m.position_stack + A(0.3 * h * k[2:2 + dim]), m.velocity_stack * 0.7 + A(k[1:1 + dim]), m.stress_stack * 0.9))
           for m in s.world.material_points]
    fs = [f if not hasattr(f, "gravity") else eqx.tree_at(lambda q: q.gravity, f, f.gravity * -0.6 + A(k[:dim])) for f in s.mechanics.forces]
    return eqx.tree_at(lambda q: (q.world.sdfs, q.world.material_points, q.mechanics.forces, q.dt, q.time), s,
                       (tuple(sd), tuple(mps), tuple(fs), s.dt * 0.7, s.time + 1.3))


@part(gen_eager, quick=8, thorough=560, shards=4)
def eager(case, rec):
    """uncompiled execution agrees with compiled execution, from the state as the builder gives it"""
    solver, s0 = assemble(case)
    a, b = arrayify(s0), s0
    for _ in range(case["steps"]):
        a = step(solver, a)
        b = solver(b)
    if not calm(a, case):
        rec.label("unstable")
        return
    like(rec, a, arrayify(b), "eager")
    # the same solver object given an unrelated state: nothing of the earlier calls may remain
    d = disturb(a, case)
    like(rec, step(solver, d), arrayify(solver(d)), "eager, another state")
    rec.nt()
    c = case["cfg"]
    rec.label("eager " + c["law"], c["scheme"], f"{c['dim']}d", f"n{c['n']}")


@composite
def gen_struct(draw):
    c = {k: pick(draw, *v) for k, v in OPT.items()}
    c["n"] = pick(draw, 1, 1, 2, 5)
    return dict(dress(draw_scene(draw, c)), raw=boolean(draw), scan=boolean(draw))


def structure_check(case, rec):
    solver, s0 = assemble(case)
    if not case["raw"]:
        s0 = arrayify(s0)
    sig = lambda t: [(jnp.shape(x), jnp.result_type(x)) for x in jax.tree_util.tree_leaves(t)]
    tr = lambda t: jax.tree_util.tree_structure(t)
    out = jax.eval_shape(solver, s0)
    rec.check(tr(out) == tr(s0), "the step changes the structure of the state")
    for p, (sa, da), (sb, db) in zip(paths(s0), sig(s0), [(x.shape, x.dtype) for x in jax.tree_util.tree_leaves(out)]):
        rec.check(sa == sb, f"{p} has shape {sb} after a step instead of {sa}")
        rec.check(da == db, f"{p} has dtype {db} after a step instead of {da}")
    if case["scan"]:
        out = jax.eval_shape(lambda s: jax.lax.scan(lambda t, _: (solver(t), None), s, None, length=3)[0], s0)
    else:
        out = jax.eval_shape(lambda s: jax.lax.fori_loop(0, 3, lambda _, t: solver(t), s), s0)
    rec.check(tr(out) == tr(s0), "a compiled loop changes the structure of the state")
    rec.nt()
    c = case["cfg"]
    rec.label("structure " + c["law"], c["scheme"], f"n{c['n']}", "raw" if case["raw"] else "arrays", str(FT.__name__))


@part(gen_struct, quick=28, thorough=1600, shards=2)
def structure(case, rec):
    """structure, shapes and dtypes survive a step and allow compiled loops (float64)"""
    structure_check(case, rec)


@part(gen_struct, quick=28, thorough=1200, shards=2, x64=False)
def structure32(case, rec):
    """the same in the default single precision"""
    structure_check(case, rec)
