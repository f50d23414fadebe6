"""C09: material laws are isotropic."""
from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
from checks.c14 import draw_dp
from checks.c15 import draw_mcc
from checks.c12 import draw_fluid
for _n in list(PARTS):
    PARTS.pop(_n)

RULE = ("A case is a law with generated parameters, six particles with arbitrary admissible stress and history, a velocity "
        "gradient each, and a rotation or reflection. Non-trivial: the stress after the update is not isotropic.")
ASSUMPTIONS = ["cases within 1e-7 of a yield or connection threshold are not compared (either branch is right there)"]
NPT = 6
LAWS = ("elastic", "fluid", "mui", "dp", "mcc")


@composite
def gen(draw):
    name = pick(draw, *LAWS)
    f = {"elastic": lambda: dict(E=lognum(draw, 1e2, 1e8, 32), nu=num(draw, -0.5, 0.49)), "fluid": lambda: draw_fluid(draw),
         "mui": lambda: dict(mu_s=num(draw, 0.1, 0.8), mu_d=num(draw, 0.8, 1.5), I_0=lognum(draw, 1e-3, 1, 16), d_p=lognum(draw, 1e-4, 1e-1, 16), K=lognum(draw, 1e3, 1e7, 16)),
         "dp": lambda: draw_dp(draw), "mcc": lambda: draw_mcc(draw)}[name]()
    amp = {"elastic": 0.1, "fluid": 10.0, "mui": 10.0, "dp": 1e-3, "mcc": 0.1 * f.get("kap", 1)}[name]
    return dict(name=name, law=f, L=(np.array(arr(draw, (2, NPT, 3, 3))) * amp).tolist(), stress=sym(arr(draw, (NPT, 3, 3))).tolist(),
                u=arr(draw, (NPT, 3), 0.0, 1.0), q=arr(draw, (4,), -1, 1), reflect=boolean(draw), order=integer(draw, 0, 10 ** 6), dt=pick(draw, 1.0, 0.1),
                wide=pick(draw, 4, 9))


def initial(case):
    """Admissible initial data: (law, fields, law state builder)."""
    name, f = case["name"], case["law"]
    law = make_law(name, **f)
    u = np.array(case["u"])
    s = np.array(case["stress"])
    with quiet():
        if name == "elastic":
            s = s * f["E"] * 1e-2
            return law, s, np.ones(NPT), np.ones(NPT), {}
        if name in ("fluid", "mui"):
            ratio = 0.9 + 0.3 * u[:, 0]
            rho = 500 + 2000 * u[:, 1]
            return law, s * f["K"] * 1e-2, rho * ratio, np.ones(NPT), dict(density_ref_stack=rho)
        if name == "dp":
            G = 3 * f["K"] * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"]))
            e = s * 1e-3
            p0 = u[:, 0] * f["K"] * 2e-3
            st = 2 * G * ref.dev(e) + (f["K"] * np.trace(e, axis1=1, axis2=2) + p0)[:, None, None] * np.eye(3)
            return law, st, 880 + 100 * u[:, 1], np.ones(NPT), dict(eps_e_stack=e, eps_p_acc_stack=u[:, 2] * 0.01, p_0_stack=p0)
        p = f["p_ref"] * np.exp(1 + case.get("wide", 4) * u[:, 0])
        pc = p * (1.05 + 2 * u[:, 1])
        d = ref.dev(s)
        qd = ref.qvm(d) + 1e-12
        qy = f["M"] * np.sqrt(p * (pc - p))
        st = p[:, None, None] * np.eye(3) + d * (0.95 * u[:, 2] * qy / qd)[:, None, None]
        v = np.exp(np.log(f["N"]) + f["lam"] * np.log(f["p_ref"] / pc) + f["kap"] * np.log(pc / p))
        return law, st, f["rho_p"] / v, np.ones(NPT), dict(p_c_stack=pc, stress_ref_stack=st, eps_e_stack=s * 1e-2)


def make_state(law, name, fields, stress):
    n = len(stress)
    cls = {"elastic": lambda: law.create_state(stress_ref_stack=A(stress)),
           "fluid": lambda: law.create_state_from_density(A(np.ones(n))), "mui": lambda: law.create_state_from_density(A(np.ones(n))),
           "dp": lambda: law.create_state(A(stress)),
           "mcc": lambda: law.create_state_from_ocr(A(np.full(n, 1e3)), A(np.full(n, 2.0)))[0]}[name]
    with quiet():
        ls = cls()
    if fields:
        keys = list(fields)
        ls = eqx.tree_at(lambda t: tuple(getattr(t, k) for k in keys), ls, tuple(A(fields[k]) for k in keys))
    return ls


def go(law, name, s, mass, vol, fields, Ls, dt):
    ls = make_state(law, name, fields, s)
    for L in Ls:
        mp = make_mp(len(s), stress=s, L=L, mass=mass, vol=vol, vol0=vol)
        mp, ls = law_update(law, mp, ls, dt)
        s = N(mp.stress_stack)
    return s, {k: N(getattr(ls, k)) for k in ls.__dataclass_fields__ if getattr(ls, k) is not None}


def turn(x, R):
    return R @ x @ R.T if x.ndim == 3 else x


def off_switch(case, law, s, mass, fields, Ls, dt):
    """Particles whose branch does not depend on rounding, judged by two slightly different inputs."""
    name = case["name"]
    if name not in ("dp", "mcc", "mui"):
        return np.ones(NPT, bool)
    a = go(law, name, s, mass, np.ones(NPT), fields, Ls * (1 + 1e-7), dt)[0]
    b = go(law, name, s, mass * (1 + 1e-9), np.ones(NPT), fields, Ls * (1 - 1e-7), dt)[0]
    sc = np.abs(a).max(axis=(1, 2)) + np.abs(b).max(axis=(1, 2)) + np.abs(s).max(axis=(1, 2))
    return np.abs(a - b).max(axis=(1, 2)) < 3e-6 * sc + 1e-12


@part(gen, quick=900, thorough=40000, shards=6)
def isotropy(case, rec):
    """rotated or reflected inputs give rotated stress and tensor history, the same scalar history"""
    name, dt = case["name"], case["dt"]
    law, s, mass, vol, fields = initial(case)
    Ls = np.array(case["L"]) / dt
    R = rotation3(case["q"])
    if case["reflect"]:
        R = R @ np.diag([1.0, 1.0, -1.0])
    s1, h1 = go(law, name, s, mass, vol, fields, Ls, dt)
    s2, h2 = go(law, name, turn(s, R), mass, vol, {k: turn(v, R) for k, v in fields.items()}, R @ Ls @ R.T, dt)
    ok = off_switch(case, law, s, mass, fields, Ls, dt)
    sc = np.maximum(np.abs(s1).max(axis=(1, 2)), np.abs(s).max(axis=(1, 2))) + 1e-9
    if name == "dp":
        sc = sc + 1e-3 * np.abs(fields["eps_e_stack"]).max() * case["law"]["K"] + 1e-2
    tol = 1e-7 if name != "mcc" else 1e-6
    rec.close(s2[ok], turn(s1, R)[ok], rtol=tol, scale=sc[ok][:, None, None], msg=name + " stress")
    for k in h1:
        a, b = turn(h1[k], R)[ok], h2[k][ok]
        rec.close(b, a, rtol=1e-6, scale=np.abs(a).max(initial=0) + (1e-5 if "eps" in k else 1e-9), msg=f"{name} {k}")
    rec.nt(np.any(np.abs(ref.dev(s1))[ok] > 1e-12 * sc.max()))
    rec.label(name, "reflection" if case["reflect"] else "rotation", f"{name} {int(ok.sum())}/{NPT}")


@part(gen, quick=500, thorough=20000, shards=6)
def per_particle(case, rec):
    """a particle's result does not depend on its neighbours in the batch, nor on its place"""
    name, dt = case["name"], case["dt"]
    law, s, mass, vol, fields = initial(case)
    Ls = np.array(case["L"]) / dt
    import random as _r
    idx = list(range(NPT))
    _r.Random(case["order"]).shuffle(idx)
    rep = [case["order"] % NPT] * NPT
    s1, h1 = go(law, name, s, mass, vol, fields, Ls, dt)
    ok = off_switch(case, law, s, mass, fields, Ls, dt)
    for which, sel in (("permuted", idx), ("repeated", rep), ("alone", rep[:1])):
        s2, h2 = go(law, name, s[sel], mass[sel], vol[sel], {k: v[sel] for k, v in fields.items()}, Ls[:, sel], dt)
        m = ok[sel]
        sc = np.abs(s1).max() + 1e-9
        rec.close(s2[m], s1[sel][m], rtol=1e-9, scale=sc, msg=f"{name} {which} stress")
        for k in h1:
            rec.close(h2[k][m], h1[k][sel][m], rtol=1e-9, scale=np.abs(h1[k]).max() + 1e-9, msg=f"{name} {which} {k}")
    rec.nt(np.abs(s1).max() > 0)
    rec.label(name)


def leaves(t):
    return [N(x) for x in jax.tree_util.tree_leaves(t)]


@part(gen, quick=500, thorough=20000, shards=3)
def created(case, rec):
    """the state a law creates for a particle does not depend on the other particles it is created with"""
    name = case["name"]
    law, s, mass, vol, fields = initial(case)
    u = np.array(case["u"])
    p = np.maximum(ref.pressure(s), 1e-3 * np.abs(s).max() + 1e-9)
    if name == "mcc":
        p = ref.pressure(s)
    mp_of = lambda i: make_mp(len(i), stress=(ref.dev(s) + p[:, None, None] * np.eye(3))[i], mass=mass[i], vol=vol[i] * (0.7 + u[i, 2]), vol0=vol[i])
    makers = dict(elastic=[lambda i: law.create_state(stress_ref_stack=A(s[i]))],
                  dp=[lambda i: law.create_state(A(s[i]))],
                  mcc=[lambda i: law.create_state_from_ocr(A(p[i]), A(1 + u[i, 1]), A(u[i, 2] * p[i])), lambda i: law.create_state_from_ocr(A(p[i]), A(1 + u[i, 1])),
                       lambda i: law.create_state_from_stress(A(p[i]), A(u[i, 2] * p[i])),
                       lambda i: law.create_state_from_density(A(p[i]), A(mass[i] * (1 + 0.02 * u[i, 2]))), lambda i: law.create_state(mp_of(i))],
                  fluid=[lambda i: law.create_state_from_density(A(mass[i])), lambda i: law.create_state_from_density(A(mass[i]), A(p[i])), lambda i: law.create_state(mp_of(i))],
                  mui=[lambda i: law.create_state_from_density(A(mass[i])), lambda i: law.create_state_from_density(A(mass[i]), A(p[i])), lambda i: law.create_state(mp_of(i))])[name]
    import random as _r
    idx = list(range(NPT))
    _r.Random(case["order"]).shuffle(idx)
    one = case["order"] % NPT
    for k, make in enumerate(makers):
        with quiet():
            whole = leaves(make(np.arange(NPT)))
            for which, sel in (("permuted", np.array(idx)), ("alone", np.array([one])), ("repeated", np.array([one] * 3))):
                got = leaves(make(sel))
                rec.check(len(got) == len(whole), "different state structure")
                for a, b in zip(got, whole):
                    rec.finite(b[sel], f"{name} created state {k}")
                    rec.close(a, b[sel], rtol=1e-10, scale=np.abs(b[sel]).max(initial=0) + 1e-300, msg=f"{name} state {k} created {which}")
    rec.nt(np.ptp(p) > 0 or np.ptp(mass) > 0)
    rec.label(name)
