"""C10: stress rotates with the material under spin."""
from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
from checks.c09 import initial, make_state, draw_dp, draw_mcc, NPT
for _n in list(PARTS):
    PARTS.pop(_n)

RULE = ("A case is a law with admissible stressed particles and a rotation axis, turned by 1-40 small steps; or a body "
        "rotating rigidly through a solver. Non-trivial: the stress is not isotropic and the total rotation exceeds 1e-3.")
ASSUMPTIONS = ["the Jaumann rate is first order: error per step up to twice the squared rotation angle, summed over the steps"]


def spin_matrix(w):
    return np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0.0]])


@composite
def gen(draw):
    name = pick(draw, "dp", "mcc", "elastic", "fluid", "mui")
    f = {"elastic": lambda: dict(E=lognum(draw, 1e2, 1e8, 32), nu=num(draw, -0.5, 0.49)), "fluid": lambda: dict(K=1e4, viscosity=10.0, beta=7.0),
         "mui": lambda: {}, "dp": lambda: draw_dp(draw), "mcc": lambda: draw_mcc(draw)}[name]()
    if name == "mui":
        f = dict(mu_s=0.3, mu_d=0.6, I_0=0.3, d_p=0.005, K=1e5)
    if name == "dp":
        f["rho_0"] = 100.0
    return dict(name=name, law=f, stress=sym(arr(draw, (NPT, 3, 3))).tolist(), u=arr(draw, (NPT, 3), 0.0, 1.0), axis=arr(draw, (3,), -1, 1),
                angle=pick(draw, 1e-2, 1e-3, 3e-2), steps=pick(draw, 1, 5, 40), dt=pick(draw, 1.0, 1e-3))


@part(gen, quick=500, thorough=20000, shards=5)
def law_spin(case, rec):
    """stress and tensor history turn with the material, invariants and hardening stay"""
    name, f, dt = case["name"], case["law"], case["dt"]
    law, s, mass, vol, fields = initial(case)
    if name == "dp":
        # start inside the cone: raise the pressure
        G = 3 * f["K"] * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"]))
        e = ref.dev(fields["eps_e_stack"])
        q = np.sqrt(ref.j2(2 * G * e))
        p0 = (q + 1e-3) * (1.3 + np.array(case["u"])[:, 0]) / f["mu_1"]
        fields = dict(eps_e_stack=e, eps_p_acc_stack=fields["eps_p_acc_stack"], p_0_stack=p0)
        s = 2 * G * e + p0[:, None, None] * np.eye(3)
    if name in ("fluid", "mui"):
        s = np.zeros((NPT, 3, 3))
        mass = np.array(fields["density_ref_stack"]) * 1.05
    axis = unit_vector(case["axis"])
    th, k = case["angle"], case["steps"]
    Wm = spin_matrix(axis) * th            # material spin over a step (v = W x)
    L = np.tile(-Wm / dt, (NPT, 1, 1))     # compression positive
    if name == "mcc":   # keep away from the yield surface, which first-order growth would cross
        s = ref.pressure(s)[:, None, None] * np.eye(3) + 0.8 * ref.dev(s)
        fields = dict(fields, stress_ref_stack=s, eps_e_stack=np.array(case["stress"])[::-1] * 1e-2)
    ls = make_state(law, name, fields, s)
    R = np.eye(3)
    Rs = ref.expm(Wm)
    cur = s
    h0 = {q: N(getattr(ls, q)) for q in ls.__dataclass_fields__ if getattr(ls, q) is not None}
    F = np.tile(np.eye(3), (NPT, 1, 1))
    for _ in range(k):
        mp = make_mp(NPT, stress=cur, L=L, mass=mass, vol=vol, vol0=vol)
        mp, ls = law_update(law, mp, ls, dt)
        cur = N(mp.stress_stack)
        R = Rs @ R
    h1 = {q: N(getattr(ls, q)) for q in h0}
    sc = np.abs(ref.dev(s)).max(axis=(1, 2)) + 1e-9 * np.abs(s).max(axis=(1, 2))
    if name in ("dp", "mcc"):
        tol = (4.0 * k * th * th + 1e-9)
        err = np.abs(cur - R @ s @ R.T).max(axis=(1, 2))
        rec.margin(name + " rotated stress", (err / (tol * sc + 1e-300)).max())
        rec.le(err, tol * sc + (1e-5 if name == "dp" else 0), name + ": stress does not turn with the material")
        rec.close(ref.pressure(cur), ref.pressure(s), rtol=1e-7, atol=1e-5, msg=name + " pressure under spin")
        rec.le(np.abs(ref.qvm(cur) - ref.qvm(s)), tol * ref.qvm(s) + 1e-5, name + ": deviator grows under spin")
        for q in ("p_c_stack", "eps_p_acc_stack", "p_0_stack"):
            if q in h0:
                rec.close(h1[q], h0[q], rtol=1e-9, atol=1e-12, msg=name + " " + q + " under spin")
        a, b = h1["eps_e_stack"], R @ h0["eps_e_stack"] @ R.T
        rec.le(np.abs(a - b).max(axis=(1, 2)), tol * np.abs(b).max(axis=(1, 2)) + 1e-12 + (1e-5 / f["K"] if name == "dp" else 0), name + ": elastic strain does not turn")
    elif name == "elastic":
        rec.close(cur, s, rtol=1e-10, msg="elastic stress under spin")
    else:
        # rigid motion makes no shear stress in a fluid, and the pressure is that of the density
        rec.close(ref.dev(cur), np.zeros_like(cur), atol=1e-7 * f["K"], rtol=0, msg=name + " deviator under spin")
        mp0 = make_mp(NPT, stress=s, L=np.zeros((NPT, 3, 3)), mass=mass, vol=vol, vol0=vol)
        rec.close(cur, law_update(law, mp0, make_state(law, name, fields, s), dt)[0].stress_stack, rtol=1e-7, scale=f["K"], msg=name + " at rest")
    rec.nt(k * th > 1e-3 and (np.abs(ref.dev(s)).max() > 0 or name in ("fluid", "mui")))
    rec.label(name, f"{k} steps")


POOL = [dict(dim=d, law=l, scheme="usl_aflip", kernel=k) for d, k in ((2, "quadratic"), (3, "cubic"), (3, "quadratic"), (2, "cubic"))
        for l in ("dp", "mcc", "elastic")] + \
       [dict(dim=d, law=l, scheme="usl", kernel=k) for d, k in ((2, "quadratic"), (2, "cubic"), (3, "quadratic")) for l in ("dp", "mcc")]


@composite
def gen_solver(draw):
    c = pick(draw, *share(POOL))
    return dict(cfg=c, axis=arr(draw, (3,), -1, 1), angle=pick(draw, 5e-3, 1e-2), steps=integer(draw, 1, 6), s=sym(arr(draw, (3, 3))).tolist(),
                frac=num(draw, 0.2, 0.6), sense=pick(draw, 1, -1))


@part(gen_solver, quick=72, thorough=2000, shards=6)
def solver_spin(case, rec):
    """a block rotating rigidly through the solver (internal forces switched off by a huge mass) turns its stress the same way"""
    c = case["cfg"]
    dim, name = c["dim"], c["law"]
    h = 1.0
    usl = c["scheme"] == "usl"       # recovers linear fields only where the lattice fills the stencils of the stencils
    half = {(2, False): 2.0, (3, False): 1.5, (2, True): 5.0, (3, True): 3.5}[dim, usl]
    m = int(2 * half) + 2
    g = dict(origin=[0.0] * dim, cells=[m] * dim, h=h)
    axis = np.array([0, 0, 1.0]) * case["sense"] if dim == 2 else unit_vector(case["axis"])
    W = spin_matrix(axis)
    dt = 1e-2
    w = case["angle"] / dt
    ctr = np.full(dim, m / 2.0)
    ax = np.round(np.arange(np.floor(m / 2 - half), np.ceil(m / 2 + half), 0.5) + 0.25, 6)
    pos = np.stack(np.meshgrid(*[ax] * dim, indexing="ij"), -1).reshape(-1, dim)
    n = len(pos)
    vel = (pos - ctr) @ (W[:dim, :dim] * w).T
    d = ref.dev(np.array(case["s"]))
    if dim == 2:
        d[2, :2] = d[:2, 2] = 0
        d = ref.dev(d)
    p = 2000.0
    rho_scale = 1e9           # inertia so large that stress does not move the block
    f = dict(law_defaults(name))
    if name == "dp":
        f.update(K=1e5, c0=0.0, mu_1=0.5, mu_2=0.0, rho_0=1e-9)
        qmax = 0.5 * p
    elif name == "mcc":
        f.update(rho_p=2650.0 * rho_scale)
        qmax = f["M"] * p * 0.8
    else:
        qmax = p
    s0 = p * np.eye(3) + d * (case["frac"] * qmax / max(ref.qvm(d), 1e-9) if np.abs(d).max() > 1e-9 else 0.0)
    S = np.tile(s0, (n, 1, 1))
    law = make_law(name, **f)
    vol = 0.5 ** dim
    mass = np.full(n, 1e3 * rho_scale * vol)
    if name == "dp":
        G = float(law.G)
        ls = law.create_state(A(S))
        ls = eqx.tree_at(lambda t: t.eps_e_stack, ls, A(np.tile(ref.dev(s0) / (2 * G), (n, 1, 1))))
    elif name == "mcc":
        with quiet():
            ls, _, rho = law.create_state_from_ocr(A(np.full(n, p)), A(np.full(n, 3.0)))
        ls = eqx.tree_at(lambda t: t.stress_ref_stack, ls, A(S))
        mass = N(rho) * vol
    else:
        ls = law.create_state(stress_ref_stack=A(S))
    solver, st = simple_scene(grids=[g], scheme=c["scheme"], dt=dt, params=dict(alpha=0.0 if c["scheme"] == "usl_aflip" else 1.0, **({"cfl_limit": 1e6} if c["scheme"] == "usl_aflip" else {})),
                              bodies=[dict(mp=dict(pos=pos, vel=vel, mass=mass, vol=np.full(n, vol), stress=S), law=(name, f), law_state=ls, kernel=c["kernel"])])
    if c["scheme"] == "usl_aflip":
        st = set_bp(st, 0, np.tile(-W * w, (n, 1, 1)))
    k = case["steps"]
    solver, st = arrayify(solver), arrayify(st)
    start = st.world.material_points[0]
    bp0 = np.tile(-W * w, (n, 1, 1))
    for _ in range(k):
        # a free block flies apart: put it back on the rigid field before every step
        st = eqx.tree_at(lambda t: (t.world.material_points[0].position_stack, t.world.material_points[0].velocity_stack), st,
                         (start.position_stack, start.velocity_stack))
        if c["scheme"] == "usl_aflip":
            st = set_bp(st, 0, bp0)
        st = step(solver, st)
    out = state_of(st, 0)
    ang = case["angle"] * k
    R = ref.expm(W * ang)
    inner = np.linalg.norm(pos - ctr, axis=1) < (0.95 if dim == 2 else 0.45)
    F = out["F"][inner]
    got = out["stress"][inner]
    sgn = np.abs(ref.dev(s0)).max()
    slack = 4 * k * case["angle"] ** 2
    if name == "elastic":
        rec.le(np.abs(got - s0).max(), 1e-6 * f["E"] * ang + 1e-9 * p, "elastic stress from rigid rotation")
    else:
        if name == "dp":    # its deformation gradient is not reset
            rec.le(np.abs(F - R).max(), slack + 1e-9, f"{c['scheme']}: the block does not rotate as asked")
        err = np.abs(got - R @ s0 @ R.T).max()
        # the deformation gradient grows by the squared angle (explicit update): density follows
        rec.margin(f"{name} stress in a rotating block", err / (slack * sgn + 1e-5 * p))
        rec.le(err, slack * sgn + 1e-5 * p, f"{c['scheme']}/{name}: stress does not follow the rotation")
        rec.label("distinguishes the sense" if np.abs(got - R.T @ s0 @ R).max() > 2 * (slack * sgn + 1e-5 * p) else "insensitive")
    rec.nt(np.abs(ref.dev(s0)).max() > 0)
    rec.label(f"{c['scheme']} {name} {dim}d {c['kernel']}")
