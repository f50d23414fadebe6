"""C25: saving and loading reproduces the run exactly."""
import contextlib
import shutil
import tempfile

from hydraxmpm.common.sim_io import load_simulation

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a history of opening an output folder (with and without overwrite), saving steps and solvers, loading steps and adding "
        "foreign files, replayed against a dictionary model. Non-trivial: at least two different steps are saved and one is loaded.")
ASSUMPTIONS = ["static settings (grid, kernel, blending factor) come from the skeleton, as load_simulation documents"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
SCENES = [dict(dim=d, scheme=s, law=l, extra=e) for (d, s), (l, e) in zip(
    [(2, "usl"), (3, "usl_aflip"), (2, "usl_aflip"), (3, "usl"), (2, "usl_aflip"), (3, "usl_aflip")],
    [("elastic", "sdf"), ("mcc", "rigid"), ("dp", "sdf"), ("fluid", "both"), ("mui", "rigid"), ("dp", "none")])]


def build(c, shift=0.0):
    """the build script of a scene; ``shift`` changes every number that is not part of the structure"""
    dim = c["dim"]
    g = GRIDS[dim][0]
    n = 4
    b = hdx.SimBuilder()
    builder_add_grid(b, g)
    pos = np.array(g["origin"]) + g["h"] * (1.2 + 0.37 * np.arange(n)[:, None] + 0.11 * np.arange(dim))
    with quiet():
        mp = make_mp(pos=pos + 0.01 * shift, vel=0.1 * np.sin(np.arange(n * dim) + shift).reshape(n, dim), mass=np.full(n, 1000 * g["h"] ** dim / 4), vol=np.full(n, g["h"] ** dim / 4),
                     stress=np.tile(np.eye(3) * 500.0, (n, 1, 1)) if c["law"] == "dp" else np.zeros((n, 3, 3)))
        law = make_law(c["law"], **({} if c["law"] in ("mcc", "mui") else dict(E=1e4 + shift) if c["law"] == "elastic" else dict(K=1e4 + shift)))
        ls, mp = law_state(c["law"], law, mp)
        p = b.particle_states.add(mp)
        b.add_constitutive_law(law=law, law_state=ls)
    b.couple(p_idx=p, shapefunction="quadratic")
    b.add_gravity(gravity=A(np.arange(dim) - 3.0 + shift))
    if c["extra"] in ("sdf", "both"):
        b.add_sdf_object(sdf_logic=hdx.SphereSDF(1.0 + shift), center_of_mass=A(pos[0]), velocity=A(np.ones(dim) + shift))
        b.add_sdf_collider(sdf_idx=0, friction=0.3)
    if c["extra"] in ("rigid", "both"):
        b.add_material_points(position_stack=A(pos + 0.3 + shift), is_rigid=True)
    b.set_solver(scheme=c["scheme"])
    return b.build(time=0.25 + shift, step=int(7 + shift), dt=1e-3 + 1e-4 * shift)


SPECIAL = [0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, 1e-40, 1.0 + 2.0 ** -23, 0.1, 1e300, -1e38]


def scramble(tree, seed, step=None):
    """same structure, every number different (special values included)"""
    rng = np.random.default_rng(seed)

    def f(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, float):
            return float(rng.choice(SPECIAL)) if rng.random() < 0.3 else float(rng.normal())
        if isinstance(x, int):
            return int(rng.integers(0, 2 ** 31 - 1))
        if eqx.is_array(x):
            if jnp.issubdtype(x.dtype, jnp.inexact):
                v = rng.normal(size=x.shape)
                v = np.where(rng.random(x.shape) < 0.2, rng.choice(SPECIAL, x.shape), v)
                with np.errstate(all="ignore"):
                    return jnp.asarray(v.astype(x.dtype))
            if jnp.issubdtype(x.dtype, jnp.bool_):
                return jnp.asarray(rng.random(x.shape) < 0.5)
            return jnp.asarray(rng.integers(0, 2 ** 31 - 1, size=x.shape).astype(x.dtype))
        return x

    out = jax.tree_util.tree_map(f, tree)
    if step is not None:
        out = eqx.tree_at(lambda s: s.step, out, step)
    return out


def equal(rec, got, want, what):
    a, ta = jax.tree_util.tree_flatten(got)
    b, tb = jax.tree_util.tree_flatten(want)
    rec.check(ta == tb and len(a) == len(b), f"{what}: structure changed")
    for i, (x, y) in enumerate(zip(a, b)):
        if isinstance(y, (bool, int, float)) and not eqx.is_array(y):
            ok = (eqx.is_array_like(x) and np.asarray(x, dtype=np.asarray(y).dtype).tobytes() == np.asarray(y).tobytes())
        elif eqx.is_array_like(y):
            x_, y_ = np.asarray(x), np.asarray(y)
            ok = x_.shape == y_.shape and x_.dtype == y_.dtype and x_.tobytes() == y_.tobytes()
        else:
            ok = True
        rec.check(ok, lambda: f"{what}: leaf {i} is {x!r} instead of {y!r}")


STEPS = [0, 1, 7, 10, 11, 100, 999, 1000, 10000, 99999, 100000, 100001, 110000, 1000000, 9999999, 123456789, 2147483647]


@composite
def gen(draw):
    scene = pick(draw, *share(list(range(len(SCENES)))))
    few = draw(st.lists(st.one_of(st.sampled_from(STEPS), st.integers(0, 300000)), min_size=2, max_size=5, unique=True))
    ops = []
    for _ in range(integer(draw, 4, 14)):
        op = pick(draw, "save", "save", "save", "load", "load", "solver", "open", "mess")
        if op in ("save", "load"):
            ops.append([op, pick(draw, *few), integer(draw, 0, 10 ** 6)] + ([pick(draw, "int", "array", "int64")] if op == "save" else []))
        elif op == "solver":
            ops.append([op, integer(draw, 0, 10 ** 6)])
        elif op == "open":
            ops.append([op, pick(draw, False, False, True)])
        else:
            ops.append([op, pick(draw, "notes.txt", "state_xyz.eqx", "sub/deep.bin")])
    return dict(scene=scene, ops=ops, relative=boolean(draw), name=pick(draw, "out", "deep/er/out", "with space"), first=pick(draw, True, False))


def tree_of(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out


def history_of(case, rec):
    solver, state = build(SCENES[case["scene"]])
    skel_solver, skel_state = scramble(solver, 991), scramble(state, 992)
    top = tempfile.mkdtemp(prefix="verif_c25_")
    try:
        base = os.path.join(top, "work")
        os.makedirs(os.path.join(base, "out2"))
        for f in ("precious.txt", "out2/keep.txt", "state_00001.eqx"):
            with open(os.path.join(base, f), "w") as h:
                h.write(f)
        out = os.path.join(base, case["name"])

        def opened(over):
            with quiet():
                if case["relative"]:
                    return hdx.SimIO(output_dir=case["name"], relative_dir=os.path.join(base, "script.py"), overwrite=over)
                return hdx.SimIO(output_dir=out, overwrite=over)

        outside = tree_of(base)
        io = opened(case["first"])
        steps, solvers, foreign = {}, None, {}
        saved_steps, loads = set(), 0
        for op in case["ops"]:
            if op[0] == "open":
                before = tree_of(out)
                io = opened(op[1])
                if op[1]:
                    steps, solvers, foreign = {}, None, {}
                    rec.check(tree_of(out) == {} and os.listdir(out) == [], "overwriting left files behind")
                else:
                    rec.check(tree_of(out) == before, "opening without overwriting changed files")
            elif op[0] == "mess":
                p = os.path.join(out, op[1])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h:
                    h.write("mine")
                foreign[op[1]] = b"mine"
            elif op[0] == "solver":
                s = scramble(solver, op[1])
                with quiet():
                    io.save_solver(s, meta_info=dict(note=op[1]) if op[1] % 2 else None)
                solvers = s
            elif op[0] == "save":
                k = dict(int=int, array=lambda q: jnp.asarray(np.int32(q)), int64=lambda q: jnp.asarray(np.int64(q)))[op[3]](op[1])
                s = scramble(state, op[2], step=k)
                with quiet():
                    io.save_step(s, verbose=bool(op[2] % 2))
                steps[op[1]] = s
                saved_steps.add(op[1])
            else:
                k = op[1]
                skel = eqx.tree_at(lambda s: s.step, skel_state, steps[k].step) if k in steps else skel_state
                skel = eqx.tree_at(lambda s: s.step, skel, jnp.zeros_like(skel.step) if eqx.is_array(skel.step) else 0)
                try:
                    ls, lst = load_simulation(out, skel_solver, skel, k)
                except Exception as e:
                    rec.check(k not in steps or solvers is None, lambda: f"loading a saved step raised {type(e).__name__}: {e}")
                    continue
                rec.check(k in steps and solvers is not None, f"loading step {k}, which was never saved, returned a state")
                equal(rec, lst, steps[k], f"state of step {k}")
                equal(rec, ls, solvers, "solver")
                loads += 1
            now = tree_of(base)
            for f, v in outside.items():
                rec.check(now.get(f) == v, f"file outside the output folder changed: {f}")
            prefix = case["name"] + os.sep
            rec.check(all(f in outside or f.startswith(prefix) for f in now), "file created outside the output folder")
            for f, v in foreign.items():
                rec.check(now.get(prefix + f) == v, f"foreign file {f} in the folder changed")
        # at the end every step saved is still there
        if solvers is not None:
            for k, want in steps.items():
                skel = eqx.tree_at(lambda s: s.step, skel_state, jnp.zeros_like(want.step) if eqx.is_array(want.step) else 0)
                ls, lst = load_simulation(out, skel_solver, skel, k)
                equal(rec, lst, want, f"state of step {k} at the end")
                equal(rec, ls, solvers, "solver at the end")
                loads += 1
    finally:
        shutil.rmtree(top)
    rec.nt(len(saved_steps) >= 2 and loads > 0)
    rec.label(f"scene {case['scene']}", *(["relative"] * case["relative"]), *{o[0] for o in case["ops"]})


@part(gen, quick=300, thorough=12000, shards=3)
def history(case, rec):
    """random histories of open, save and load against a dictionary of what each step held"""
    history_of(case, rec)


@part(gen, quick=60, thorough=2000, shards=1, x64=False)
def history32(case, rec):
    """the same in the default single precision"""
    history_of(case, rec)


@composite
def gen_resume(draw):
    scene = pick(draw, *share(list(range(len(SCENES)))))
    n = integer(draw, 2, 14)
    return dict(scene=scene, n=n, every=integer(draw, 1, 4), at=integer(draw, 0, n - 1), callback=boolean(draw), shift=num(draw, -0.5, 0.5, 8))


@eqx.filter_jit
def _one(solver, state):
    return solver(state)


@part(gen_resume, quick=60, thorough=1500, shards=3)
def resume(case, rec):
    """stopping at any saved step, loading into freshly built skeletons and going on equals never having stopped; saving from inside a compiled loop saves the same states"""
    c = SCENES[case["scene"]]
    solver, state = build(c, case["shift"])
    solver, state = arrayify(solver), arrayify(state)
    full = [state]
    for _ in range(case["n"]):
        full.append(_one(solver, full[-1]))
    start = int(state.step)
    skel_solver, skel_state = (arrayify(q) for q in build(c))
    top = tempfile.mkdtemp(prefix="verif_c25_")
    try:
        out = os.path.join(top, "run")
        with quiet():
            io = hdx.SimIO(output_dir=out)
            io.save_solver(solver)
            if case["callback"]:
                def body(k, d):
                    s = eqx.combine(d, stat)
                    jax.lax.cond(k % case["every"] == 0, lambda q: jax.debug.callback(lambda z: io.save_step(eqx.combine(z, stat), verbose=False), q, ordered=True), lambda q: None, d)
                    return eqx.filter(solver(s), eqx.is_array)
                dyn, stat = eqx.partition(state, eqx.is_array)
                end = jax.lax.fori_loop(0, case["n"], body, dyn)
                jax.block_until_ready(end)
                jax.effects_barrier()
            else:
                for k in range(0, case["n"], case["every"]):
                    io.save_step(full[k])
        names = sorted(f for f in os.listdir(out) if f.startswith("state_"))
        rec.check(len(names) == len(range(0, case["n"], case["every"])), f"steps saved: {names}")
        k = case["at"] - case["at"] % case["every"]
        ls, s = load_simulation(out, skel_solver, skel_state, start + k)
        if case["callback"]:
            for x, y in zip(jax.tree_util.tree_leaves(s), jax.tree_util.tree_leaves(full[k])):
                rec.close(N(x), N(y), rtol=1e-7, scale=np.abs(N(y)).max() + 1e-3 if N(y).size else 1.0, msg="state saved from inside the loop")
            rec.check(int(s.step) == start + k, "step saved from inside the loop")
        else:
            equal(rec, s, full[k], "state")
            equal(rec, ls, solver, "solver")
            for j in range(k, case["n"]):
                s = _one(ls, s)
            equal(rec, s, full[-1], "resumed run")
    finally:
        shutil.rmtree(top)
    rec.nt(case["n"] > k and k > 0)
    rec.label(c["law"], c["scheme"], "callback" if case["callback"] else "direct")
