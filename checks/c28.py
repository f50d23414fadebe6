"""C28: derivatives through the simulation code are finite and correct."""
from hydraxmpm.utils import math_helpers as mh
from hydraxmpm.forces.sdf_collider import apply_frictional_contact

from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c19 as element
import checks.c20 as shapes

PARTS.clear()       # those of the imported checks

RULE = ("A case is a scalar outcome (stress after a loading history, motion and stress after some steps, a distance, a point of an element test), the "
        "inputs it is differentiated by and a direction. Non-trivial: the derivative is compared with differences (the outcome is smooth there) and not zero.")
ASSUMPTIONS = ["derivatives equal differences where one-sided and central differences of several sizes agree; elsewhere (kinks) they are only required to be finite",
               "volume, mass and pressure are positive"]
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
STEPS = np.array([0.0, 1.0, -1.0, 0.25, -0.25, 0.0625, -0.0625])


def tools(f):
    """compiled value on a line, reverse-mode derivatives and forward-mode derivative of f(inputs, data)"""
    def line(x, t, e, data):
        return jax.lax.map(lambda a: f(jax.tree_util.tree_map(lambda u, v: u + a * v, x, t), data), e)

    def derivatives(x, t, data):
        g = jax.grad(f)(x, data)
        return g, jax.jvp(lambda y: f(y, data), (x,), (t,))[1]

    return eqx.filter_jit(line), eqx.filter_jit(derivatives)


def compare(rec, tool, x, t, data, e, what, tol=1e-4, unit=0.0, kinked=False):
    """-> True when the derivative was compared with differences"""
    line, derivatives = tool
    x, t = jax.tree_util.tree_map(A, x), jax.tree_util.tree_map(A, t)
    v = N(line(x, t, A(e * STEPS), data))
    rec.finite(v, f"{what}: value")
    g, jv = derivatives(x, t, data)
    for k, q in g.items():
        rec.check(np.isfinite(N(q)).all(), lambda: f"{what}: the derivative by {k} (reverse mode) is not finite: {N(q).ravel()[~np.isfinite(N(q).ravel())][:3]}")
    rec.check(np.isfinite(float(jv)), f"{what}: the directional derivative (forward mode) is not finite")
    terms = {k: float((N(g[k]) * N(t[k])).sum()) for k in g}
    rev, fwd = sum(terms.values()), float(jv)
    scale = sum(float(np.abs(N(g[k]) * N(t[k])).sum()) for k in g)
    floor = np.abs(v).max() * 3e-14 / e
    rec.le(abs(rev - fwd), 1e-8 * scale + 1e-6 * floor + 1e-12 * np.abs(v).max() + 1e-14, msg=f"{what}: forward and reverse mode disagree ({fwd} and {rev})")
    if kinked:      # one-sided derivatives differ: finite and consistent is all there is to say
        rec.nt()
        return False
    f0, p1, m1, p2, m2, p3, m3 = v
    c1, c2, c3 = (p1 - m1) / (2 * e), (p2 - m2) / (0.5 * e), (p3 - m3) / (0.125 * e)
    sides = abs(p3 - 2 * f0 + m3) / (0.0625 * e)       # difference of the one-sided slopes
    sides2 = abs(p2 - 2 * f0 + m2) / (0.25 * e)
    ref_scale = max(scale, abs(c2))
    noise = 40 * floor
    if abs(c1 - c2) > 1e-3 * ref_scale + noise or abs(c2 - c3) > 3e-4 * ref_scale + 4 * noise or sides2 > 1e-2 * ref_scale + 4 * noise or sides > 0.4 * sides2 + 1e-6 * ref_scale + 16 * noise:
        rec.label("kink or noise")
        return False
    err = 5 * abs(c1 - c2) + tol * ref_scale + noise + 1e-9 * np.abs(v).max() + unit      # unit: below it a derivative counts as zero
    rec.check(abs(fwd - c2) <= err, lambda: f"{what}: derivative {fwd:.10g}, differences {c1:.10g} {c2:.10g} {c3:.10g} (terms {terms})")
    rec.label("compared")
    if noise < 0.05 * abs(c2):
        rec.nt()
    return True


# ------------------------------------------------------------------ inverses and norms
@composite
def gen_helpers(draw):
    return dict(m=arr(draw, (3, 3), -1, 1), t=arr(draw, (3, 3), -1, 1), scale=lognum(draw, 1e-3, 1e3, 24), rank=pick(draw, 3, 3, 3, 2, 1, 0), x=pick(draw, 0.0, num(draw, -2, 2, 200), lognum(draw, 1e-12, 1e12, 96), -0.1), v=arr(draw, (3,), -1, 1), zero=pick(draw, False, True), clip=pick(draw, 1e6, 1e3))


@eqx.filter_jit
def _inverses(m, x, v, clip):
    i3 = lambda a: mh.inv_3x3_robust(a, clip)
    i2 = lambda a: mh.inv_2x2_robust(a, clip)
    si = lambda a: mh.safe_inv_scalar_clamped(a, clip)
    out = dict(i3=i3(m), i2=i2(m[:2, :2]), si=si(x), norm=mh.safe_norm(v), rows=mh.safe_norm(m, axis=-1))
    rev = dict(i3=jax.jacrev(i3)(m), i2=jax.jacrev(i2)(m[:2, :2]), si=jax.grad(si)(x), norm=jax.grad(mh.safe_norm)(v), q=jax.grad(lambda s: mh.get_q_vm(s))(m), tau=jax.grad(lambda s: mh.get_scalar_shear_stress(s, None, None))(m), vm=jax.grad(lambda s: mh.get_shear_strain_vm(s))(m))
    fwd = dict(i3=jax.jacfwd(i3)(m), i2=jax.jacfwd(i2)(m[:2, :2]), si=jax.jacfwd(si)(x), norm=jax.jacfwd(mh.safe_norm)(v), q=jax.jacfwd(lambda s: mh.get_q_vm(s))(m), tau=jax.jacfwd(lambda s: mh.get_scalar_shear_stress(s, None, None))(m), vm=jax.jacfwd(lambda s: mh.get_shear_strain_vm(s))(m))
    return out, rev, fwd


@part(gen_helpers, quick=600, thorough=30000, shards=1)
def helpers(case, rec):
    """robust inverses, norms and invariants: exact where regular, finite where singular"""
    u, s, vt = np.linalg.svd(np.array(case["m"]) + 1e-12 * np.eye(3))
    s[case["rank"]:] = 0
    m = (u * s) @ vt * case["scale"]
    if case["rank"] == 0:
        m = np.zeros((3, 3))
    v = np.zeros(3) if case["zero"] else np.array(case["v"])
    x, clip = case["x"], case["clip"]
    out, rev, fwd = _inverses(A(m), A(x), A(v), A(clip))
    for name, d in (("value", out), ("reverse derivative", rev), ("forward derivative", fwd)):
        for k, q in d.items():
            rec.check(np.isfinite(N(q)).all(), lambda: f"{name} of {k} is not finite at {m.tolist()} / {x} / {v.tolist()}")
    for k in rev:
        rec.close(rev[k], N(fwd[k]), rtol=1e-9, scale=np.abs(N(fwd[k])).max() + 1e-300, msg=f"forward and reverse derivative of {k}")
    for k, n in (("i3", 3), ("i2", 2)):
        a = m[:n, :n]
        det = np.linalg.det(a)
        cond = np.linalg.cond(a) if abs(det) > 0 else np.inf
        if cond < 1e6 and abs(det) > 1e-14:
            w = np.linalg.inv(a)
            rec.close(out[k], w, rtol=1e-11 * cond + 1e-6 * (abs(det) < 1e-13), scale=np.abs(w).max(), msg=f"{n}x{n} inverse")
            if det ** -2 < 0.99 * clip:
                d = -np.einsum("ik,lj->ijkl", w, w)
                rec.close(rev[k], d, rtol=1e-10 * cond, scale=np.abs(d).max(), msg=f"derivative of the {n}x{n} inverse")
                rec.nt()
                rec.label(f"{n}x{n} regular")
        else:
            rec.label(f"{n}x{n} singular")
    if abs(x) > 1e-13:
        rec.close(out["si"], 1 / x, rtol=1e-6, msg="scalar inverse")
        if x ** -2 < 0.99 * clip:
            rec.close(rev["si"], -1 / x ** 2, rtol=1e-9, scale=x ** -2, msg="derivative of the scalar inverse")
    rec.le(abs(N(rev["si"])), clip * (1 + 1e-9), msg="clipped derivative")
    n = np.sqrt(v @ v)
    rec.close(out["norm"], np.sqrt(v @ v + 1e-12), rtol=1e-12, msg="norm")
    rec.close(rev["norm"], v / np.sqrt(v @ v + 1e-12), rtol=1e-10, atol=1e-14, msg="derivative of the norm")
    rec.close(out["rows"], np.sqrt((m ** 2).sum(1) + 1e-12), rtol=1e-12, msg="norms along an axis")
    s = ref.dev(m[None])[0]
    for k, f, dev in (("q", np.sqrt(3 * 0.5 * (s * s).sum()), 1.5), ("tau", np.sqrt(0.5 * (s * s).sum()), 0.5)):
        if f > 1e-9 * np.abs(m).max() and f > 0:
            rec.close(rev[k], dev * s / f, rtol=1e-7, scale=1.0, msg=f"derivative of {k}")


# ------------------------------------------------------------------ stress updates
NP, NL = 2, 4
INPUTS = {"elastic": ["E", "nu"], "fluid": ["K", "viscosity", "beta"], "mui": ["mu_s", "mu_d", "I_0", "d_p", "K", "rho_p"],
          "dp": ["K", "nu", "mu_1", "mu_2", "c0", "mu_1_hat", "H"], "mcc": ["nu", "M", "lam", "kap", "N"]}


def law_from(name, theta, fixed):
    if name == "fluid":         # declared as plain numbers: parameters are replaced on the object
        law = make_law("fluid")
        return eqx.tree_at(lambda q: [getattr(q, k) for k in INPUTS[name]], law, [theta[k] for k in INPUTS[name]])
    return LAW_CLASS[name]()(**fixed, **theta)


def outcome(name):
    def f(x, data):
        law = law_from(name, {k: x[k] * data["theta"][k] for k in INPUTS[name]}, data["fixed"])
        vol = x["volume"] * data["volume"]
        mass = data["mass"]
        mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((NP, 3)), mass_stack=mass, volume_stack=vol, volume0_stack=data["volume"])
        if name == "mcc":
            ls, st, rho = law.create_state_from_ocr(p_stack=x["p"] * data["p"], ocr_stack=x["ocr"] * data["ocr"])
            mp = eqx.tree_at(lambda m: (m.stress_stack, m.mass_stack), mp, (st, rho * data["volume"]))
        else:
            mp = eqx.tree_at(lambda m: m.stress_stack, mp, x["p"][:, None, None] * data["stress"])
            ls = law.create_state(mp.stress_stack) if name == "dp" else law.create_state(material_points=mp) if name == "elastic" else law.create_state_from_density(density_stack=data["rho"] * x["ocr"])

        def one(c, L):
            mp, ls = c
            mp = eqx.tree_at(lambda m: (m.L_stack, m.F_stack, m.volume_stack), mp, (L, (jnp.eye(3) - L * data["dt"]) @ mp.F_stack, mp.volume_stack * (1 - jnp.trace(L, axis1=1, axis2=2) * data["dt"])))
            mp, ls = law.update(mp, ls, data["dt"])
            return (mp, ls), (mp.stress_stack * data["weight"]).sum()

        _, out = jax.lax.scan(one, (mp, ls), x["L"])
        return (out * data["when"]).sum()

    return f


TOOLS = {}


def tool_for(key, make):
    if key not in TOOLS:
        TOOLS[key] = tools(make())
    return TOOLS[key]


def gen_law(name):
    @composite
    def gen(draw):
        if name == "mcc":
            f = element.draw_law(draw, "mcc")
            f.pop("p_ref")
            amp = f["kap"] * pick(draw, 0.02, 0.2, 1e-3, 0.0)
        elif name == "dp":
            f = dict(element.draw_law(draw, "dp"), H=pick(draw, 0.0, 1e3))
            amp = 1000 / f["K"] * pick(draw, 0.1, 1.0, 1e-2, 0.0)
        elif name == "elastic":
            f = element.draw_law(draw, "elastic")
            amp = pick(draw, 1e-3, 1e-2, 0.0)
        elif name == "fluid":
            f = dict(K=lognum(draw, 1e3, 1e6, 12), viscosity=lognum(draw, 1e-2, 1e2, 12), beta=num(draw, 1.5, 7.0, 12))
            amp = pick(draw, 1e-2, 1e-3, 0.0)
        else:
            mu = num(draw, 0.2, 0.5, 6)
            f = dict(mu_s=mu, mu_d=mu + num(draw, 0.05, 0.5, 6), I_0=num(draw, 0.1, 0.6, 6), d_p=lognum(draw, 1e-3, 1e-2, 6), K=lognum(draw, 1e4, 1e6, 6), rho_p=2500.0)
            amp = pick(draw, 1e-2, 1e-3, 0.0)
        kind = pick(draw, "general", "general", "isotropic", "shear", "one at rest", "plane", "unload")
        L = np.array(arr(draw, (NL, NP, 3, 3), -1, 1))
        return dict(name=name, law=f, amp=amp, kind=kind, L=L.tolist(), p=arr(draw, (NP,), 0.3, 1.0), ocr=arr(draw, (NP,), 0.0, 1.0), ratio=pick(draw, 1.0, num(draw, 0.8, 1.3, 16)), dt=pick(draw, 1.0, 1e-2), weight=arr(draw, (3, 3), -1, 1), vol=arr(draw, (NP,), 0.5, 2.0), dir=arr(draw, (NL * NP * 9 + 40,), -1, 1), along=pick(draw, "all", "law", "state", "loading"), dev=pick(draw, 0.0, 0.2), mu_a=boolean(draw))
    return gen


def law_case(case, rec):
    name, f = case["name"], dict(case["law"])
    L = np.array(case["L"])
    if case["kind"] == "isotropic":
        L = L[..., :1, :1] * np.eye(3)
    elif case["kind"] == "shear":
        L = L * (np.array([[0, 1, 0], [0, 0, 0], [0, 0, 0]]))
    elif case["kind"] == "one at rest":
        L[:, 0] = 0
    elif case["kind"] == "plane":
        L[..., 2, :] = L[..., :, 2] = 0
    elif case["kind"] == "unload":
        L[2:] = -L[:2]
    L = L * case["amp"] / case["dt"]
    vol = np.array(case["vol"])
    ocr = 1.05 + np.array(case["ocr"]) * 2
    S = np.diag([1 + case["dev"], 1 - case["dev"] / 2, 1 - case["dev"] / 2])
    rho = np.array([1000.0, 1500.0]) / (1 + 0.3 * np.array(case["ocr"]))
    theta = {k: f[k] for k in INPUTS[name]}
    fixed = {k: q for k, q in f.items() if k not in theta}
    if name == "dp":
        fixed["rho_0"] = 900.0
    if name == "mui":
        fixed["alpha"] = 1e-3 if case["mu_a"] else 1e-6
    dens = rho * case["ratio"] if name in ("fluid", "mui") else np.array([1600.0, 2000.0])
    data = dict(theta={k: A(q) for k, q in theta.items()}, fixed=arrayify(fixed) if name != "fluid" else {}, volume=A(vol), mass=A(dens * vol), p=A(np.array(case["p"]) * 1e4), ocr=A(ocr), stress=A(np.tile(S, (NP, 1, 1)) * 1000.0), rho=A(rho),
                weight=A(sym(case["weight"])[None] * 1e-3), when=A(np.array([1.0, 0.0, 0.5, 1.0])), dt=A(case["dt"]))
    x = dict({k: 1.0 for k in theta}, volume=np.ones(NP), p=np.ones(NP), ocr=np.ones(NP), L=L)
    d = np.array(case["dir"])
    a = case["along"]
    on = lambda g: float(a in ("all", g))
    t = dict({k: on("law") * d[i] for i, k in enumerate(theta)}, volume=on("state") * d[10:12] * 1e-2, p=on("state") * d[12:14], ocr=on("state") * d[14:16] * 0.1, L=on("loading") * d[40:].reshape(L.shape) * (case["amp"] or 1e-3) / case["dt"])
    tool = tool_for(name, lambda: outcome(name))
    with quiet():
        ok = compare(rec, tool, x, t, data, 1e-4, f"{name} stress history", tol=1e-4)
    rec.label(name, case["kind"], "rest" if case["amp"] == 0 else "loaded", *(["compared " + a] if ok else []))


def _register(name, quick):
    def run(case, rec):
        law_case(case, rec)
    run.__name__ = "law_" + name
    run.__doc__ = f"stress histories of the {name} law by its parameters, state and loading"
    part(gen_law(name), quick=quick, thorough=quick * 40, shards=1)(run)


for _n, _q in (("elastic", 120), ("fluid", 120), ("mui", 120), ("dp", 150), ("mcc", 100)):
    _register(_n, _q)


# ------------------------------------------------------------------ contact law of one node
@composite
def gen_contact(draw):
    dim = pick(draw, 2, 3)
    return dict(dim=dim, n=arr(draw, (dim,), -1, 1), v=arr(draw, (dim,), -1, 1), w=arr(draw, (dim,), -1, 1), mode=pick(draw, "general", "no sliding", "rest", "sliding only", "still wall"), mu=num(draw, 0, 1.5, 12), dist=num(draw, -0.1, 0.1, 20), dir=arr(draw, (10,), -1, 1), weight=arr(draw, (3,), -1, 1))


def _contact(x, data):
    n = x["normal"] / jnp.sqrt(jnp.sum(x["normal"] ** 2))
    v = apply_frictional_contact(x["velocity"], x["dist"], n, x["wall"], x["friction"], 1e-3, 1e-4)
    return (v * data).sum()


@part(gen_contact, quick=400, thorough=20000, shards=1)
def contact(case, rec):
    """contact response by velocity, wall velocity, normal and friction, also without sliding"""
    dim = case["dim"]
    n, v, w = unit_vector(case["n"]), np.array(case["v"]), np.array(case["w"])
    m = case["mode"]
    if m == "still wall":
        w = w * 0
    elif m == "no sliding":
        v = w - n * abs(v[0])
    elif m == "rest":
        v, w = v * 0, w * 0
    elif m == "sliding only":
        v = w + v - (v @ n) * n
    d = np.array(case["dir"])
    x = dict(velocity=v, wall=w, normal=n, friction=case["mu"], dist=case["dist"])
    t = dict(velocity=d[:dim], wall=d[3:3 + dim], normal=d[6:6 + dim], friction=d[9] * 0.3, dist=0.0)
    ok = compare(rec, tool_for(("contact", dim), lambda: _contact), x, t, A(case["weight"][:dim]), 1e-5, "contact", unit=1e-6)
    rec.label(m, f"{dim}D", *(["compared " + m] if ok else []))


# ------------------------------------------------------------------ distances
DIST = [s for s in shapes.SHAPES]


@composite
def gen_distance(draw):
    kind, dim = pick(draw, *DIST)
    return dict(shape=shapes.draw_shape(draw, kind, dim), dim=dim, com=arr(draw, (dim,), -2, 2), angle=num(draw, -4, 4) if dim == 2 else arr(draw, (4,), -1, 1), p=arr(draw, (12, dim), -1, 1), special=mask(draw, 12), dir=arr(draw, (12, 12), -1, 1))


SHAPE_FIELDS = {}


@part(gen_distance, quick=66, thorough=3000, shards=3)
def distances(case, rec):
    """signed distances by point, position and rotation, everywhere finite, equal to differences where smooth"""
    s, dim = case["shape"], case["dim"]
    c = s["scale"]
    logic = shapes.build(s)
    com = c * np.array(case["com"])
    rot = A(case["angle"]) if dim == 2 else A(shapes.quaternion(case["angle"]))
    R = shapes.rotation(case, dim)
    if s["kind"] == "domain":
        com, R = 0 * com, np.eye(dim)
        rot = A(0.0) if dim == 2 else A([1.0, 0, 0, 0])
    p = np.array(case["p"]) * 1.5 * c
    mid = 0.0
    if s["kind"] == "domain":
        lo, hi = np.array(s["size"][0]), np.array(s["size"][1])
        mid = (lo + hi) / 2
        p = mid + np.array(case["p"]) * (hi - lo) * 0.7
    for i, on in enumerate(case["special"]):
        if on:      # centre, axes, diagonals
            p[i] = mid + (np.round(case["p"][i]) if i > 2 else 0 * p[i]) * np.abs(p[i, 0] - np.ravel(mid)[0])
    world = p @ R.T + com
    state = logic.create_state(center_of_mass=A(com), rotation=rot)
    wt = jnp.ones(dim)

    def dist(x):
        st = eqx.tree_at(lambda q: (q.center_of_mass, q.rotation), state, (x["com"], x["rot"]))
        return logic.signed_distance(st, x["point"])

    def batch(points, dirs, e):
        def one(pt, d):
            x = dict(point=pt, com=A(com), rot=jnp.asarray(rot, dtype=FT))
            t = dict(point=d[:dim] * c, com=d[3:3 + dim] * c * (s["kind"] != "domain"), rot=(d[6] if dim == 2 else d[6:10] - jnp.dot(d[6:10], x["rot"]) * x["rot"]) * (s["kind"] != "domain"))
            v = jax.vmap(lambda a: dist(jax.tree_util.tree_map(lambda u, w: u + a * w, x, t)))(e)
            g = jax.grad(dist)(x)
            return v, g, jax.jvp(dist, (x,), (t,))[1], t
        return jax.vmap(one)(points, dirs)

    e = 1e-4
    v, g, jv, t = jax.tree_util.tree_map(N, jax.jit(batch)(A(world), A(case["dir"]), A(e * STEPS)))
    rec.finite(v, "distance")
    for k in g:
        rec.check(np.isfinite(g[k]).all(), lambda: f"derivative of the distance to {s['kind']} by {k} is not finite at local points {p[~np.isfinite(g[k].reshape(12, -1)).all(1)].tolist()}")
    rec.check(np.isfinite(jv).all(), "forward derivative of a distance is not finite")
    rev = sum((g[k] * t[k]).reshape(12, -1).sum(1) for k in g)
    rec.close(rev, jv, rtol=1e-9, scale=10 * c, msg="forward and reverse mode of the distance")
    f0, p1, m1, p2, m2, p3, m3 = v.T
    c1, c2, c3 = (p1 - m1) / (2 * e), (p2 - m2) / (0.5 * e), (p3 - m3) / (0.125 * e)
    s2, s3 = np.abs(p2 - 2 * f0 + m2) / (0.25 * e), np.abs(p3 - 2 * f0 + m3) / (0.0625 * e)
    smooth = (np.abs(c1 - c2) < 1e-3 * c) & (np.abs(c2 - c3) < 1e-4 * c) & (s2 < 1e-2 * c) & (s3 < 0.4 * s2 + 1e-5 * c)
    bad = smooth & (np.abs(c2 - jv) > 5 * np.abs(c1 - c2) + 2e-5 * c)
    rec.check(not bad.any(), lambda: f"distance to {s['kind']}: derivative {jv[bad][0]:.9g}, differences {c1[bad][0]:.9g} {c2[bad][0]:.9g} at local point {p[bad][0].tolist()}")
    rec.nt(smooth.any())
    rec.label(f"{s['kind']} {dim}D", *(["some kinks"] if not smooth.all() else []))


# ------------------------------------------------------------------ simulations
SIMS = pool(60 if THOROUGH else 9, seed=28, law=["elastic", "fluid", "mui", "dp", "mcc"], scheme=["usl", "usl_aflip"], wall=["none", "walls", "ball", "box"], dim=[2, 2, 3], kernel=["quadratic", "cubic"], steps=[1, 3, 5], dynamic=[False, True], damping=[False, True])
SIM_INPUT = {"elastic": ["E"], "fluid": [], "mui": ["mu_s", "K"], "dp": ["mu_1"], "mcc": ["M", "lam"]}


@composite
def gen_sim(draw):
    c = dict(pick(draw, *share(SIMS)))
    dim = c["dim"]
    n = 6
    return dict(cfg=c, pos=arr(draw, (n, dim), 0, 1), vel=arr(draw, (n, dim), -1, 1), rest=pick(draw, False, False, True), g=arr(draw, (dim,), -1, 1), calm=pick(draw, False, False, True), mu=num(draw, 0.1, 1.0, 9), wall_v=arr(draw, (dim,), -1, 1), still=boolean(draw), aligned=pick(draw, False, False, True, True), dir=arr(draw, (8, n, 3), -1, 1), along=pick(draw, "all", "state", "wall", "force"), weight=arr(draw, (3, n, dim), -1, 1))


def sim_scene(case):
    c = case["cfg"]
    dim, n, h = c["dim"], 6, 0.25
    cells = [7, 6] if dim == 2 else [4, 4, 4]
    L = h * np.array(cells)
    x = L * (0.3 + 0.4 * np.array(case["pos"])) + 0.0013
    if case.get("aligned"):       # on nodes and on the middle of cells, where a weight is exactly zero
        x = np.round(x / h * 2) * h / 2
    v = np.array(case["vel"]) * (0.0 if case["rest"] else 0.3)
    body = dict(mp=dict(pos=x.tolist(), vel=v.tolist(), mass=[1000.0 * h ** dim / 4] * n, vol=[h ** dim / 4] * n), law=(c["law"], {}), kernel=c["kernel"])
    if c["law"] == "mcc":
        body["law_init"] = dict(p0=1000.0)
    if c["law"] == "dp":
        body["mp"]["stress"] = (np.tile(np.eye(3), (n, 1, 1)) * 1000.0).tolist()
    forces = [("gravity", dict(gravity=tuple([0.0] * dim)))]
    sdfs = []
    if c["wall"] == "walls":
        sdfs = [dict(sdf_logic=hdx.DomainSDF(A(L * 0.25), A(L * 0.75)))]
    elif c["wall"] == "ball":
        sdfs = [dict(sdf_logic=hdx.SphereSDF(0.45), center_of_mass=A(L * 0.5 - 0.31))]
    elif c["wall"] == "box":
        sdfs = [dict(sdf_logic=hdx.BoxSDF(A([1.0] * dim)), center_of_mass=A(L * 0.5 - np.eye(dim)[1] * 0.77))]
    if sdfs:
        forces.append(("collider", dict(friction=0.5)))
    if c["damping"]:
        forces.append(("damping", dict(alpha=0.1)))
    params = dict(alpha=0.9)
    if c["scheme"] == "usl_aflip":
        params.update(use_dynamic_alpha=c["dynamic"], alpha_support_min=0.1, alpha_support_max=4.0, beta_min=0.2, beta_max=0.6, use_mls_update=c["steps"] != 3)
    solver, state = simple_scene(grids=[dict(origin=[0.0] * dim, cells=cells, h=h)], bodies=[body], scheme=c["scheme"], dt=2e-3, forces=forces, sdfs=sdfs, params=params)
    return arrayify(solver), arrayify(state)


def sim_tool(case):
    c = case["cfg"]
    solver0, state0 = sim_scene(case)
    dyn0, stat0 = eqx.partition(state0, eqx.is_array)
    names = SIM_INPUT[c["law"]]
    base = law_defaults(c["law"])

    def f(x, data):
        s = eqx.combine(data["state"], stat0)
        mp = s.world.material_points[0]
        s = eqx.tree_at(lambda q: (q.world.material_points[0].velocity_stack, q.world.material_points[0].position_stack, q.world.material_points[0].mass_stack, q.mechanics.forces[0].gravity), s,
                        (mp.velocity_stack + x["velocity"], mp.position_stack + x["position"], mp.mass_stack * x["mass"], x["gravity"]))
        solver = solver0
        if names:
            law = LAW_CLASS[c["law"]]()(**dict(base, **{k: base[k] * x[k] for k in names}))
            solver = eqx.tree_at(lambda q: q.constitutive_laws[0], solver, law)
        if c["wall"] != "none":
            s = eqx.tree_at(lambda q: (q.world.sdfs[0].center_of_mass, q.world.sdfs[0].velocity), s, (s.world.sdfs[0].center_of_mass + x["place"], x["wall velocity"]))
        d0 = eqx.filter(s, eqx.is_array)

        def one(d, _):
            return eqx.filter(solver(eqx.combine(d, stat0)), eqx.is_array), None

        d, _ = jax.lax.scan(one, d0, None, length=c["steps"])
        q = d.world.material_points[0]
        w = data["weight"]
        return (q.position_stack * w[0]).sum() * 10 + (q.velocity_stack * w[1]).sum() + 1e-4 * (q.stress_stack[:, :w.shape[-1], 0] * w[2]).sum() + q.volume_stack.sum()

    return f


@part(gen_sim, quick=54, thorough=2400, shards=3)
def sims(case, rec):
    """outcomes of runs of several steps by initial motion, position, mass, gravity, law, and obstacle pose and motion"""
    c = case["cfg"]
    dim, n = c["dim"], 6
    _, state = sim_scene(case)
    tool = tool_for(repr(sorted(c.items())), lambda: sim_tool(case))
    data = dict(state=eqx.filter(state, eqx.is_array), weight=A(case["weight"]))
    d = np.array(case["dir"])
    a = case["along"]
    on = lambda k: float(a in ("all", k))
    wall = dict(place=np.zeros(dim)) if c["wall"] != "none" else {}
    x = dict(velocity=np.zeros((n, dim)), position=np.zeros((n, dim)), mass=np.ones(n), gravity=np.array(case["g"]) * (0.0 if case["calm"] else 9.81), **{k: 1.0 for k in SIM_INPUT[c["law"]]})
    t = dict(velocity=on("state") * d[0, :, :dim] * 0.1, position=on("state") * d[1, :, :dim] * 0.01, mass=on("state") * d[2, :, 0] * 0.1, gravity=on("force") * d[3, 0, :dim] * 10, **{k: on("force") * d[4, i, 0] for i, k in enumerate(SIM_INPUT[c["law"]])})
    if wall:
        x.update(place=np.zeros(dim))
        x["wall velocity"] = np.array(case["wall_v"]) * (0.0 if case["still"] or c["wall"] == "walls" else 0.2)
        free = 0.0 if c["wall"] == "walls" else 1.0
        t.update(place=on("wall") * free * d[5, 0, :dim] * 0.01)
        t["wall velocity"] = on("wall") * free * d[6, 0, :dim] * 0.1
    with quiet():
        ok = compare(rec, tool, x, t, data, 1e-4, f"{c['scheme']} run of {c['law']} with {c['wall']}", tol=3e-5, kinked=case.get("aligned", False))
    rec.label("aligned" if case["aligned"] else "anywhere", c["law"], c["scheme"], c["wall"], f"{dim}D", "rest" if case["rest"] and case["calm"] else "moving", *(["compared " + a] if ok else []))


# ------------------------------------------------------------------ element tests
TRX = [(m, k) for m in ("drained", "undrained", "pconst") for k in ("mcc", "elastic", "dp")]
if not THOROUGH:
    TRX = [("drained", "mcc"), ("drained", "elastic"), ("undrained", "dp"), ("pconst", "mcc")]


@composite
def gen_trx(draw):
    mode, name = pick(draw, *share([dict(m=m, k=k) for m, k in TRX])).values()
    f = element.draw_law(draw, name)
    amp = {"mcc": 0.03 * f.get("kap", 0), "dp": 0.02 * 1000 / f.get("K", 1), "elastic": 2e-3}[name]
    return dict(mode=mode, name=name, law=f, confine=lognum(draw, 3e3, 3e4, 8), ocr=num(draw, 1.2, 3.0, 9), amp=amp * pick(draw, 1.0, 0.3), dir=arr(draw, (12,), -1, 1), weight=arr(draw, (2,), -1, 1), along=pick(draw, "all", "law", "state", "loading"))


def trx_tool(mode, name):
    names = {"mcc": INPUTS["mcc"], "elastic": INPUTS["elastic"], "dp": ["K", "nu", "mu_1"]}[name]

    def f(x, data):
        law = LAW_CLASS[name]()(**{**data["fixed"], **{k: x[k] * data["theta"][k] for k in names}})
        conf = x["confine"] * data["confine"]
        if name == "mcc":
            ls, st, rho = law.create_state_from_ocr(p_stack=conf[None], ocr_stack=(x["ocr"] * data["ocr"])[None])
        else:
            st, rho = conf * jnp.eye(3)[None], jnp.array([2000.0])
        mp = hdx.MaterialPointState.create(position_stack=jnp.zeros((1, 3)), mass_stack=rho, volume_stack=jnp.ones(1), stress_stack=st)
        if name != "mcc":
            ls = law.create_state(st) if name == "dp" else law.create_state(material_points=mp)
        test = hdx.TriaxialTest(solver=hdx.ElementTestDriver(law), confine=conf, is_undrained=mode == "undrained", is_p_constant=mode == "pconst", num_steps=12, axial_rate=x["rate"] * data["rate"], dt=data["dt"])
        traj, _ = test.run(mp, ls)
        s = traj.stress_stack.reshape(12, 3, 3)
        q = s[:, 2, 2] - s[:, 0, 0]
        return ((q * data["w"][0]).sum() + (jnp.trace(s, axis1=1, axis2=2) * data["w"][1]).sum()) / conf

    return f, names


@part(gen_trx, quick=32, thorough=1800, shards=4)
def triaxial(case, rec):
    """triaxial paths by material parameters, confinement, history and rate"""
    key = ("trx", case["mode"], case["name"])
    f, names = trx_tool(case["mode"], case["name"])
    tool = tool_for(key, lambda: f)
    law = dict(case["law"])
    theta = {k: law.pop(k) for k in names}
    if case["name"] == "dp":
        law["rho_0"] = 900.0
    data = dict(theta={k: A(q) for k, q in theta.items()}, fixed=arrayify(law), confine=A(case["confine"]), ocr=A(case["ocr"]), rate=A(case["amp"] / 0.01), dt=A(0.01), w=A(case["weight"]))
    d = np.array(case["dir"])
    a = case["along"]
    on = lambda k: float(a in ("all", k))
    x = dict({k: 1.0 for k in names}, confine=1.0, ocr=1.0, rate=1.0)
    t = dict({k: on("law") * d[i] * 0.3 for i, k in enumerate(names)}, confine=on("state") * d[8], ocr=on("state") * d[9] * 0.1, rate=on("loading") * d[10])
    with quiet():
        ok = compare(rec, tool, x, t, data, 1e-4, f"{case['mode']} triaxial test of {case['name']}", tol=3e-4)
    rec.label(case["mode"], case["name"], *(["compared " + a] if ok else []))
