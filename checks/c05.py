"""C05: one step agrees with an independent reference of the scheme."""
import random

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a scene (1-2 bodies on shared or separate grids, arbitrary stress, deformation, affine state, solver "
        "settings and forces) advanced 1-3 steps next to the dense numpy reference, which is fed only the initial state. "
        "Non-trivial: several particles interact through the grid, with stress or velocity.")
ASSUMPTIONS = ["float64; oracle: dense truncated-power B-splines, no stencils; cases within 1e-9 of a switching "
               "threshold (mass cut-off, sign of a vanishing momentum, J = 1, speed cap) are compared up to the switch"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
BOXES = {2: GRIDS[2][:2] + [dict(origin=[0.1, -0.02], cells=[4, 3], h=0.0025)],
         3: GRIDS[3] + [dict(origin=[-0.01, 0.0, 0.005], cells=[3, 3, 3], h=0.0025)]}


def make_pool(scheme, count, seed):
    base = pool(count, seed=seed, dim=[2, 3], grid=[0, 1, 0, 1, 2], kernel=list(KERNELS), kernel2=list(KERNELS),
                alpha=[0.99, 0.0, 0.5, 1.0], n=[1, 6], bodies=["one", "shared", "separate"],
                law=["frozen", "fluid"], store=[False, True],
                forces=["none", "gravity_grid", "gravity_p", "damping_grid", "gravity+damping", "gravity_p+damping_p"])
    rng = random.Random(seed)
    for c in base:
        c["scheme"] = scheme
        p = dict(alpha=c["alpha"])
        if scheme == "usl_aflip":
            p.update(use_mls_update=rng.random() < 0.6, use_dynamic_alpha=rng.random() < 0.6)
            lo = rng.choice([1.1, 0.5, 1.5, 2.0])
            p.update(alpha_support_min=lo, alpha_support_max=lo + rng.choice([0.4, 1.0, 4.0, 0.05]))
            p.update(beta_min=rng.choice([0.0, 0.3, 1.0]), beta_max=rng.choice([0.5, 0.0, 1.0]))
            p.update(small_mass_cutoff=rng.choice([1e-7, 0.02, 0.2]), cfl_limit=rng.choice([0.5, 0.1, 50.0]))
            if rng.random() < 0.25:   # defaults only
                p = dict(alpha=c["alpha"])
        c["params"] = p
    return base


USL = make_pool("usl", 300 if THOROUGH else 28, 51)
AFLIP = make_pool("usl_aflip", 600 if THOROUGH else 49, 52)


def draw_case(draw, configs):
    c = pick(draw, *share(configs))
    dim, g = c["dim"], BOXES[c["dim"]][c["grid"]]
    nb = 1 if c["bodies"] == "one" else 2
    speed = pick(draw, 1.0, 5.0, 60.0)
    unit = pick(draw, 1.0, 1.0, 1e6, 1e3)
    bodies = []
    for i in range(nb):
        b = draw_body(draw, c["n"] if i == 0 else 3, g, dim, bp=c["scheme"] == "usl_aflip", speed=speed, margin=0.5)
        if c["store"]:
            b["store_F"] = True
        if c["grid"] == 2:
            b["mass"] = (np.array(b["mass"]) * 1e-3).tolist()      # a gram or so on millimetre cells
        b["mass"] = (np.array(b["mass"]) * unit).tolist()
        b["stress"] = (np.array(b["stress"]) * unit).tolist()
        bodies.append(b)
    return dict(cfg=c, bodies=bodies, dt=pick(draw, 1e-3, 1e-2), steps=integer(draw, 1, 3),
                gravity=arr(draw, (dim,), -10, 10, levels=41), damping=pick(draw, 0.2, 0.7), rel=pick(draw, 1.0, 0.9), late=pick(draw, False, False, True))


@composite
def gen_usl(draw):
    return draw_case(draw, USL)


@composite
def gen_aflip(draw):
    return draw_case(draw, AFLIP)


def forces_of(c, case, nb, ng):
    f, r = [], []
    G, P = list(range(ng)), list(range(nb))
    for name in c["forces"].split("+"):
        if name in ("gravity_grid", "gravity"):
            f.append(("gravity", dict(gravity=A(case["gravity"]), is_apply_on_grid=True)))
            r.append(("gravity_grid", G, np.array(case["gravity"])))
        elif name == "gravity_p":
            f.append(("gravity", dict(gravity=A(case["gravity"]), is_apply_on_grid=False)))
            r.append(("gravity_p", P, np.array(case["gravity"])))
        elif name in ("damping_grid", "damping"):
            f.append(("damping", dict(alpha=case["damping"], is_apply_on_grid=True)))
            r.append(("damping_grid", G, case["damping"]))
        elif name == "damping_p":
            f.append(("damping", dict(alpha=case["damping"], is_apply_on_grid=False)))
            r.append(("damping_p", P, case["damping"]))
    return f, r


FLUID = dict(K=50.0, viscosity=2.0, beta=7.0, requires_F_reset=False)


def check(case, rec):
    c = case["cfg"]
    dim, g = c["dim"], BOXES[c["dim"]][c["grid"]]
    h, dt = g["h"], case["dt"]
    nb = len(case["bodies"])
    sep = c["bodies"] == "separate"
    grids = [g, g] if sep else [g]
    kern = [c["kernel"], c["kernel2"]]
    fl, rfl = forces_of(c, case, nb, len(grids))
    law = frozen_elastic() if c["law"] == "frozen" else ("fluid", FLUID)
    bodies, rbodies, rhos = [], [], []
    for i, b in enumerate(case["bodies"]):
        body = dict(mp=mp_fields(b), law=law, g=i if sep else 0, kernel=kern[i])
        rb = ref_body(b, kern[i], i if sep else 0, dim)
        if c["law"] == "fluid":
            rho = rb["mass"] / rb["vol"] * case["rel"]
            body["law_state"] = make_law("fluid", **FLUID).create_state_from_density(A(rho))
            rhos.append(rho)
        bodies.append(body)
        rbodies.append(rb)
    with quiet():
        solver, s = simple_scene(grids=grids, bodies=bodies, scheme=c["scheme"], dt=dt, params=c["params"], forces=fl, late=case.get("late", False))
    aflip = c["scheme"] == "usl_aflip"
    if aflip:
        for i, b in enumerate(case["bodies"]):
            s = set_bp(s, i, b["Bp"])
    rgrids = [ref_grid(x) for x in grids]
    traj = trajectory(solver, s, case["steps"])
    cut = c["params"].get("small_mass_cutoff", 1e-7) if aflip else 1e-12
    tol = 1e-9
    for k in range(case["steps"]):
        new, gd = ref.mpm_step(c["scheme"], rgrids, rbodies, dt, c["params"], rfl)
        # stay off the switches
        for i in range(len(rgrids)):
            m = gd["mass"][i]
            if np.any(np.abs(m - cut) < 1e-9 * (cut + 1)) and cut > 1e-9:
                rec.label("near cutoff")
                return
            if "damping" in c["forces"]:
                on = m > 1e-12
                v = np.abs(gd["mom"][i][on]) / m[on][:, None]
                dv = np.abs(gd["force"][i][on]) / m[on][:, None] * dt
                pv = np.abs(np.concatenate([b["vel"].ravel() for b in rbodies]))
                at = lambda x: (x < 1e-7 * h) & ((x > 0) | (k > 0))
                if np.any(at(v) & (dv > 1e-14 * h)) or ("damping_p" in c["forces"] and np.any(at(pv))):
                    rec.label("near sign switch")
                    return
        for i in range(nb):
            d, w, old = state_of(traj[k + 1], i), new[i], rbodies[i]
            if aflip and np.any(np.abs(w["J"] - 1.0) < 1e-11):
                rec.label("at J = 1")
                return
            vs = np.abs(w["vel"]).max() + np.abs(old["vel"]).max() + h * np.abs(old["Bp"]).max() + h
            vs += np.abs(w["pic"]).max() + dt * np.abs(old["stress"]).max() * old["vol"].max() / (h * old["mass"].min())
            rec.close(d["vel"], w["vel"], rtol=tol, scale=vs, msg="velocity")
            rec.close(d["pos"], w["pos"], rtol=tol, scale=np.abs(w["pos"]).max() + h, msg="position")
            rec.close(d["L"], w["L"], rtol=tol, scale=np.abs(w["L"]).max() + vs / h, msg="velocity gradient")
            rec.close(d["F"], w["F"], rtol=tol, scale=np.abs(w["F"]).max(), msg="F")
            rec.close(d["vol"], w["vol"], rtol=tol, scale=np.abs(w["vol"]).max() + old["vol0"].max(), msg="volume")
            rec.same(d["mass"], old["mass"], "mass")
            if aflip:
                rec.close(d["Bp"], w["Bp"], rtol=tol, scale=np.abs(w["L"]).max() + vs / h, msg="affine state")
                rec.label("clamped" if np.any(w["clamped"]) else "not clamped")
                if np.any(w["J"] < 1) and np.any(w["J"] > 1):
                    rec.label("mixed J")
                if "support" in w:
                    lo, hi = c["params"].get("alpha_support_min", 1.1), c["params"].get("alpha_support_max", 1.5)
                    sp = w["support"]
                    rec.label("support ramp" if np.any((sp > lo) & (sp < hi)) else "support saturated")
            if w.get("Fs") is not None:
                st = N(traj[k + 1].world.material_points[i].F_store_stack)
                rec.close(st, w["Fs"], rtol=tol, scale=np.abs(w["Fs"]).max(), msg="stored F")
            if c["law"] == "fluid":
                r = np.maximum(w["mass"] / w["vol"] / rhos[i], 1e-6)
                p = np.maximum(50.0 * (r ** 7 - 1), 0)
                w["stress"] = p[:, None, None] * np.eye(3) + 4.0 * ref.dev(ref.symm(w["L"]))
            rec.close(d["stress"], w["stress"], rtol=tol * 10, scale=np.abs(w["stress"]).max() + 50.0 + 4 * vs / h, msg="stress")
            # leave the domain: stop comparing
            lo = rgrids[w["g"]].origin + 2.01 * h
            hi = rgrids[w["g"]].origin + (np.array(rgrids[w["g"]].size) - 1 - 2.01) * h
            if np.any(w["pos"] < lo) or np.any(w["pos"] > hi) or not np.all(np.isfinite(w["F"])) or np.any((w["J"] <= 0.01) | (w["J"] > 100)) or np.abs(w["F"]).max() > 100:
                rec.label("left the box")
                rec.nt()
                return
        rbodies = new
    rec.nt()
    rec.label(c["scheme"], f"{dim}d", c["kernel"], c["forces"], c["bodies"], f"n{c['n']}", c["law"], f"steps {case['steps']}")


@part(gen_usl, quick=260, thorough=8000, shards=4)
def usl(case, rec):
    """update-stress-last FLIP/PIC against the reference"""
    check(case, rec)


@part(gen_aflip, quick=420, thorough=12000, shards=7)
def aflip(case, rec):
    """affine FLIP with dynamic blending, position correction, mass cut-off and speed cap against the reference"""
    check(case, rec)
