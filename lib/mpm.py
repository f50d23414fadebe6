"""Driving the real hydraxmpm through its public API from JSON-able scene specs."""
import contextlib
import io
import os

import numpy as np

import jax
import jax.numpy as jnp
import equinox as eqx

import hydraxmpm as hdx

from . import ref
from .gen import arr, boolean, integer, lognum, num, pick, sym

X64 = bool(jax.config.jax_enable_x64)
FT = jnp.float64 if X64 else jnp.float32


def A(x, dtype=None):
    """JSON value -> jax array of the working precision (never weakly typed)."""
    return jnp.asarray(np.asarray(x, dtype=np.float64), dtype=dtype or FT)


def N(x):
    return np.asarray(x)


def arrayify(tree):
    """Python floats/ints that are pytree leaves -> arrays, so that a compiled step is
    reused across parameter values (they would otherwise be compile-time constants)."""

    def f(x):
        if isinstance(x, bool):
            return x
        if isinstance(x, float):
            return jnp.asarray(np.float64(x), dtype=FT)
        if isinstance(x, int):
            return jnp.asarray(np.int32(x))
        return x

    return jax.tree_util.tree_map(f, tree)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


_step = eqx.filter_jit(lambda solver, state: solver(state))


def _loop(solver, state, n):
    dyn, stat = eqx.partition(state, eqx.is_array)

    def body(_, d):
        s = solver(eqx.combine(d, stat))
        return eqx.filter(s, eqx.is_array)

    return eqx.combine(jax.lax.fori_loop(0, n, body, dyn), stat)


_run = eqx.filter_jit(_loop)


def step(solver, state):
    return _step(arrayify(solver), arrayify(state))


def run(solver, state, n):
    """n steps in one compiled loop."""
    return _run(arrayify(solver), arrayify(state), jnp.asarray(n, dtype=jnp.int32))


def trajectory(solver, state, n):
    out = [arrayify(state)]
    solver = arrayify(solver)
    for _ in range(n):
        out.append(_step(solver, out[-1]))
    return out


_update = eqx.filter_jit(lambda law, mp, ls, dt: law.update(mp, ls, dt))


def law_update(law, mp, ls, dt):
    return _update(arrayify(law), mp, ls, jnp.asarray(np.float64(dt), dtype=FT))


# ------------------------------------------------------------------ particles
def make_mp(n=None, dim=3, **kw):
    """MaterialPointState from JSON-able fields (short names)."""
    names = dict(pos="position_stack", vel="velocity_stack", mass="mass_stack",
                 vol="volume_stack", vol0="volume0_stack", stress="stress_stack",
                 F="F_stack", L="L_stack", force="force_stack")
    args = {}
    for k, v in kw.items():
        if v is None:
            continue
        if k == "store_F":
            args[k] = v
        else:
            args[names[k]] = A(v)
    if "position_stack" not in args:
        args["position_stack"] = jnp.zeros((n, dim), dtype=FT)
    return hdx.MaterialPointState.create(**args)


def set_mp(mp, **kw):
    names = dict(pos="position_stack", vel="velocity_stack", mass="mass_stack",
                 vol="volume_stack", vol0="volume0_stack", stress="stress_stack",
                 F="F_stack", L="L_stack", force="force_stack")
    keys = [names[k] for k in kw]
    return eqx.tree_at(lambda m: tuple(getattr(m, k) for k in keys), mp,
                       tuple(A(v) for v in kw.values()))


def mp_dict(mp):
    return dict(pos=N(mp.position_stack), vel=N(mp.velocity_stack), mass=N(mp.mass_stack),
                vol=N(mp.volume_stack), vol0=N(mp.volume0_stack), stress=N(mp.stress_stack),
                F=N(mp.F_stack), L=N(mp.L_stack))


# ----------------------------------------------------------------------- laws
def law_defaults(name):
    return {
        "elastic": dict(E=1e5, nu=0.3),
        "fluid": dict(K=1e5, viscosity=1e-1, beta=7.0),
        "mui": dict(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=0.005, K=1e5, rho_p=2500.0),
        "dp": dict(K=1e5, nu=0.3, mu_1=0.5, mu_2=0.6, c0=50.0, mu_1_hat=0.1, H=0.0, rho_0=900.0),
        "mcc": dict(nu=0.3, M=1.2, lam=0.025, kap=0.005, N=1.7),
    }[name]


LAW_CLASS = dict(elastic=lambda: hdx.LinearElasticLaw, fluid=lambda: hdx.NewtonFluid,
                 mui=lambda: hdx.MuI_LC, dp=lambda: hdx.DruckerPrager,
                 mcc=lambda: hdx.ModifiedCamClay)


def make_law(name, **params):
    kw = dict(law_defaults(name))
    kw.update(params)
    return LAW_CLASS[name]()(**kw)


def law_state(name, law, mp, p0=None, ocr=1.5):
    """A law state (and matching stress / density when the law dictates them)."""
    n = mp.num_points
    with quiet():
        if name == "elastic":
            return law.create_state(material_points=mp), mp
        if name in ("fluid", "mui"):
            return law.create_state(mp), mp
        if name == "dp":
            return law.create_state(mp.stress_stack), mp
        p = jnp.full((n,), FT(p0 or 1000.0)) if np.ndim(p0) == 0 else A(p0)
        ls, stress, rho = law.create_state_from_ocr(p_stack=p, ocr_stack=jnp.full((n,), FT(ocr)))
        mp = eqx.tree_at(lambda m: (m.stress_stack, m.mass_stack), mp,
                         (stress, rho * mp.volume_stack))
        return ls, mp


# -------------------------------------------------------------------- scenes
GRIDS = {
    2: [dict(origin=[0.0, 0.0], cells=[4, 5], h=1.0),
        dict(origin=[-0.75, 0.5], cells=[5, 4], h=0.25),
        dict(origin=[2.0, -3.0], cells=[4, 4], h=0.1)],
    3: [dict(origin=[0.0, 0.0, 0.0], cells=[3, 4, 3], h=1.0),
        dict(origin=[-0.5, 0.25, 1.0], cells=[3, 3, 4], h=0.25)],
}
PAD = 3
KERNELS = ("quadratic", "linear", "cubic")
SCHEMES = ("usl", "usl_aflip")


def ref_grid(g, pad=PAD):
    return ref.Grid(np.array(g["origin"]) - pad * g["h"], g["h"],
                    [c + 2 * pad + 1 for c in g["cells"]])


def grid_end(g):
    return [o + c * g["h"] for o, c in zip(g["origin"], g["cells"])]


def draw_positions(draw, n, g, margin=0.0, kernel="quadratic"):
    """Positions inside the box, on a lattice of 1/64 of a cell, shifted by an offset
    which keeps them off the kernel kinks of the linear kernel."""
    dim = len(g["cells"])
    u = np.asarray(arr(draw, (n, dim), 0.0, 1.0))
    cells = np.array(g["cells"], dtype=float) - 2 * margin
    x = margin + np.round(u * cells * 64 - 0.5) / 64 + (0.37 / 64)
    x = np.clip(x, margin + 0.003, margin + cells - 0.003)
    return (np.array(g["origin"]) + x * g["h"]).tolist()


def builder_add_grid(b, g, pad=PAD):
    return b.add_grid(origin=tuple(g["origin"]), end=tuple(grid_end(g)), cell_size=g["h"], padding=pad)


def simple_scene(*, grids, bodies, scheme, dt, params=None, forces=(), sdfs=(), time=0.0, step=0,
                 extras=(), late=False):
    """Assemble through SimBuilder (late: bodies are coupled after the forces are added).

    bodies: dict(mp=MaterialPointState kwargs (short names), law=(name, params),
                 law_state=optional, g=grid index, kernel=str)
    forces: ('gravity', kwargs) | ('damping', kwargs) | ('collider', kwargs)
    sdfs  : dict(logic=..., state kwargs)
    """
    b = hdx.SimBuilder()
    for g in grids:
        builder_add_grid(b, g)
    for s in sdfs:
        b.add_sdf_object(**s)
    ids, later = [], []
    for body in bodies:
        mp = make_mp(**body["mp"])
        name, lp = body["law"]
        law = make_law(name, **lp)
        ls = body.get("law_state")
        if ls is None:
            ls, mp = law_state(name, law, mp, **body.get("law_init", {}))
        p = b.particle_states.add(mp)
        with quiet():
            c = b.add_constitutive_law(law=law, law_state=ls)
        later.append(dict(p_idx=p, g_idx=body.get("g", 0), c_idx=c, shapefunction=body["kernel"]))
        if not late:
            b.couple(**later.pop())
        ids.append(p)
    for e in extras:   # rigid or unused bodies
        p = b.add_material_points(position_stack=A(e["pos"]), is_rigid=e["rigid"],
                                  **{k: A(v) for k, v in e.items() if k.endswith("_stack")})
        if e.get("couple"):
            later.append(dict(p_idx=p, g_idx=0, shapefunction=e["couple"]))
            if not late:
                b.couple(**later.pop())
    for name, kw in forces:
        getattr(b, {"gravity": "add_gravity", "damping": "add_damping",
                    "collider": "add_sdf_collider"}[name])(**kw)
    for kw in later:
        b.couple(**kw)
    b.set_solver(scheme=scheme, **(params or {}))
    solver, state = b.build(time=time, step=step, dt=dt)
    return solver, state


def set_bp(state, i, Bp):
    return eqx.tree_at(lambda s: s.mechanics.solvers[i].Bp_stack, state, A(Bp))


def frozen_elastic():
    """A law that leaves stress alone (zero stiffness) and does not reset F."""
    return ("elastic", dict(E=0.0, nu=0.0, requires_F_reset=False))


# ------------------------------------------------- generated scenes (solver checks)
def draw_body(draw, n, g, dim, stress=True, deform=True, bp=False, speed=1.0, margin=0.5, mass_range=(0.2, 5.0)):
    """Arbitrary (not necessarily physical) particle data on grid preset ``g``."""
    h = g["h"]
    pos = draw_positions(draw, n, g, margin=margin)
    mass = np.exp(np.asarray(arr(draw, (n,), np.log(mass_range[0]), np.log(mass_range[1]))))
    vol = h ** dim / 4 * np.asarray(arr(draw, (n,), 0.5, 1.5))
    b = dict(pos=pos, vel=(np.asarray(arr(draw, (n, dim), -1, 1)) * speed * h).tolist(),
             mass=mass.tolist(), vol=vol.tolist())
    if stress:
        s = sym(arr(draw, (n, 3, 3), -1, 1)) * 100.0
        if dim == 2:
            s[:, 2, :2] = 0
            s[:, :2, 2] = 0
        b["stress"] = s.tolist()
    if deform:
        F = np.eye(3) + 0.3 * np.asarray(arr(draw, (n, 3, 3), -1, 1))
        if dim == 2:
            F[:, 2, :] = F[:, :, 2] = 0
            F[:, 2, 2] = 1
        b["F"] = F.tolist()
        b["vol0"] = (vol / np.maximum(np.linalg.det(F), 0.1)).tolist()
    if bp:
        B = np.asarray(arr(draw, (n, 3, 3), -1, 1)) * speed
        if dim == 2:
            B[:, 2, :] = B[:, :, 2] = 0
        b["Bp"] = B.tolist()
    return b


def draw_unit(draw, bodies):
    """The same scene with heavier, as much more stressed bodies (kilograms to kilotonnes)."""
    u = pick(draw, 1.0, 1.0, 1e6, 1e3)
    for b in bodies:
        b["mass"] = (np.array(b["mass"]) * u).tolist()
        if "stress" in b:
            b["stress"] = (np.array(b["stress"]) * u).tolist()
    return bodies


def mp_fields(b):
    return {k: v for k, v in b.items() if k in ("pos", "vel", "mass", "vol", "vol0", "stress", "F", "store_F")}


def ref_body(b, kernel, g, dim):
    """numpy body for ref.mpm_step from the JSON body."""
    n = len(b["pos"])
    return dict(pos=np.array(b["pos"], float).reshape(n, dim), vel=np.array(b["vel"], float).reshape(n, dim),
                mass=np.array(b["mass"], float), vol=np.array(b["vol"], float),
                vol0=np.array(b.get("vol0", b["vol"]), float),
                stress=np.array(b.get("stress", np.zeros((n, 3, 3))), float),
                F=np.array(b.get("F", np.tile(np.eye(3), (n, 1, 1))), float),
                Fs=np.array(b.get("F", np.tile(np.eye(3), (n, 1, 1))), float) if b.get("store_F") else None,
                Bp=np.array(b.get("Bp", np.zeros((n, 3, 3))), float), kernel=kernel, g=g)


def state_of(state, i):
    d = mp_dict(state.world.material_points[i])
    s = state.mechanics.solvers
    if i < len(s) and s[i] is not None and hasattr(s[i], "Bp_stack"):
        d["Bp"] = N(s[i].Bp_stack)
    return d
