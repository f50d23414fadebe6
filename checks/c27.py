"""C27: stress and strain measures are the defined invariants."""
from hydraxmpm.utils import math_helpers as mh

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a stack of tensors (general, symmetric, isotropic, uniaxial, zero, nearly singular) with a rotation, or material points with "
        "random fields. Non-trivial: the tensors are neither zero nor isotropic.")
NT = 6
R9 = 1e-9 if X64 else 2e-5
EPS = 1e-12 if X64 else 1e-5


def draw_tensors(draw, lo=1e-8, hi=1e8):
    t = np.array(arr(draw, (NT, 3, 3), -1, 1)) * lognum(draw, lo, hi, 64)
    k = np.array(arr(draw, (NT,), 0, 1))
    out = []
    for i in range(NT):
        a = t[i]
        kind = int(k[i] * 6.999)
        if kind == 1:
            a = a[0, 0] * np.eye(3)
        elif kind == 2:
            a = np.diag(a[0])
        elif kind == 3:
            a = a * (i > 1)
        elif kind == 4:
            a = sym(a[None])[0]
            a[2, :2] = a[:2, 2] = 0
        elif kind == 5:
            a = a[0, 0] * np.eye(3) + 1e-6 * a
        elif kind == 6:
            a = np.diag([0, 0, a[1, 1]])
        out.append(a)
    return np.array(out)


@composite
def gen(draw):
    return dict(t=draw_tensors(draw).tolist(), u=draw_tensors(draw).tolist(), q=arr(draw, (4,), -1, 1), dt=lognum(draw, 1e-6, 1.0, 16), p=arr(draw, (NT,), 0, 1), qq=arr(draw, (NT,), 0, 1), big=lognum(draw, 1e-3, 1e7, 16))


SCALARS = dict(pressure=lambda t: ref.pressure(t), J2=lambda t: ref.j2(t), q=lambda t: np.sqrt(3 * ref.j2(t)), tau=lambda t: np.sqrt(ref.j2(t)), vol=lambda t: np.trace(t, axis1=-2, axis2=-1),
               vm=lambda t: np.sqrt(2 / 3 * (ref.dev(t) ** 2).sum((-2, -1))))


def measures(t):
    return dict(pressure=mh.get_pressure(t), J2=mh.get_J2(t), q=mh.get_q_vm(t), tau=mh.get_scalar_shear_stress(t, None, None), vol=mh.get_volumetric_strain(t), vm=mh.get_shear_strain_vm(t),
                dev=mh.get_dev_stress(t), deve=mh.get_dev_strain(t), D=mh.get_strain_rate_tensor(t))


@eqx.filter_jit
def evaluate(t, u, dt):
    st = measures(t)
    deep = measures(t.reshape(2, 3, 3, 3))
    one = measures(t[0])
    alias = dict(pressure=mh.get_pressure_stack(t), J2=mh.get_J2_stack(t), q=mh.get_q_vm_stack(t), tau=mh.get_scalar_shear_stress_stack(t), vol=mh.get_volumetric_strain_stack(t), vm=mh.get_shear_strain_vm_stack(t),
                 dev=mh.get_dev_stress_stack(t), deve=mh.get_dev_strain_stack(t), D=mh.get_strain_rate_tensor_stack(t))
    given = dict(J2=mh.get_J2(dev_stress=mh.get_dev_stress(t)), q=mh.get_q_vm(dev_stress=mh.get_dev_stress(t)), tau=mh.get_scalar_shear_stress(None, mh.get_dev_stress(t), None),
                 vm=mh.get_shear_strain_vm(dev_strain=mh.get_dev_strain(t)), dev=mh.get_dev_stress(t, mh.get_pressure(t)), deve=mh.get_dev_strain(t, mh.get_volumetric_strain(t)))
    more = dict(contraction=mh.get_double_contraction(t, u), contraction_s=mh.get_double_contraction_stack(t, u), spin=mh.get_spin_tensor(t[1]), symm=mh.get_sym_tensor(t[1]), skew=mh.get_skew_tensor(t[1]),
                symm_s=mh.get_sym_tensor_stack(t), skew_s=mh.get_skew_tensor_stack(t), gamma=mh.get_scalar_shear_strain(t[1]), gamma_s=mh.get_scalar_shear_strain_stack(t), jaumann=mh.get_jaumann_increment(t[1], mh.get_spin_tensor(u[1]), dt),
                small=mh.get_small_strain(t[1]), small_s=mh.get_small_strain_stack(t), plastic=mh.get_plastic_strain(t, u), plastic_s=mh.get_plastic_strain_stack(t, u))
    return st, deep, one, alias, given, more


def measures_of(case, rec):
    t, u = np.array(case["t"]), np.array(case["u"])
    R = rotation3(case["q"])
    dt = case["dt"]
    st, deep, one, alias, given, more = evaluate(A(t), A(u), A(dt))
    m = np.abs(t).max(axis=(1, 2))
    big = m.max()
    want = {k: f(t) for k, f in SCALARS.items()}
    want.update(dev=ref.dev(t), deve=ref.dev(t), D=ref.symm(t))
    for k, w in want.items():
        sc = m ** 2 * 10 if k == "J2" else m * 5
        sc = sc[:, None, None] if w.ndim == 3 else sc
        at = np.broadcast_to(R9 * sc, w.shape) + (2e-8 if k == "vm" else 0) + 1e-30
        if k in ("q", "tau", "vm"):
            at = at + 3 * m * np.sqrt(EPS) * 1e-3       # square roots of a cancelled sum
        if not X64 and k == "J2":
            at = at + 1e-37
        if not X64 and k in ("q", "tau"):
            at = at + 1e-18
        for name, got in (("stack", st), ("nested stack", {q: N(v).reshape(w.shape) if q == k else 0 for q, v in deep.items()}), ("alias", alias), ("given parts", given)):
            if k in got:
                rec.le(np.abs(N(got[k]) - w), at, msg=f"{k} ({name})")
        rec.le(np.abs(N(one[k]) - w[0]), at[0], msg=f"{k} (single)")
    # unchanged by rotation; splits recombine
    rot = measures_jit(A(R @ t @ R.T))
    for k in ("pressure", "J2", "q", "tau", "vol", "vm"):
        sc = m ** 2 * 10 if k == "J2" else m * 5
        rec.le(np.abs(N(rot[k]) - want[k]), (R9 + (1e-8 if k in ("q", "tau", "vm") else 0)) * sc * (10 if X64 else 40) + (2e-8 if k == "vm" else 1e-18) + (3e-3 * m if not X64 and k in ("q", "tau", "vm") else 0), msg=f"{k} after rotation")
    rec.close(N(st["dev"]) + N(st["pressure"])[:, None, None] * np.eye(3), t, rtol=R9, scale=big, msg="stress from its split")
    rec.close(N(more["symm_s"]) + N(more["skew_s"]), t, rtol=R9, scale=big, msg="tensor from symmetric and skew part")
    # the rest
    mu = np.abs(u).max()
    pair = (t * u).sum((1, 2))
    rec.close(more["contraction"], pair, rtol=R9, scale=10 * big * mu, msg="double contraction")
    rec.close(more["contraction_s"], pair, rtol=R9, scale=10 * big * mu, msg="double contraction of stacks")
    for k, w in (("spin", ref.skew(t[1])), ("symm", ref.symm(t[1])), ("skew", ref.skew(t[1])), ("symm_s", ref.symm(t)), ("skew_s", ref.skew(t)), ("small", ref.symm(t[1]) - np.eye(3)), ("small_s", ref.symm(t) - np.eye(3))):
        rec.close(more[k], w, rtol=R9, scale=big + k.startswith("small"), msg=k)
    g = np.sqrt(0.5 * (ref.dev(t) ** 2).sum((1, 2)))
    rec.close(more["gamma"], g[1], rtol=R9 * 100, scale=m[1] + 1e-18, msg="scalar shear strain")
    rec.close(more["gamma_s"], g, rtol=R9 * 100, scale=big + 1e-18, msg="scalar shear strain of stacks")
    W = ref.skew(u[1])
    rec.close(more["jaumann"], t[1] + (W @ t[1] - t[1] @ W) * dt, rtol=R9, scale=m[1] * (1 + mu * dt) * 6, msg="co-rotational increment")
    for k in ("plastic", "plastic_s"):
        rec.close(more[k], t - u, rtol=R9, scale=big + mu, msg="plastic strain")
    rec.nt(bool(np.sqrt(ref.j2(t)).max() > 1e-3 * big))
    rec.label(*(["zero"] * bool((m == 0).any())), *(["isotropic"] * bool(((np.sqrt(ref.j2(t)) < 1e-5 * m) & (m > 0)).any())))


measures_jit = eqx.filter_jit(measures)


@part(gen, quick=1200, thorough=60000, shards=1)
def invariants(case, rec):
    """every tensor measure, single, stacked and nested, against its definition; unchanged by rotation"""
    measures_of(case, rec)


@composite
def gen32(draw):
    return dict(t=draw_tensors(draw, 1e-3, 1e7).tolist(), u=draw_tensors(draw, 1e-3, 1e4).tolist(), q=arr(draw, (4,), -1, 1), dt=lognum(draw, 1e-6, 1e-2, 16))


@part(gen32, quick=400, thorough=10000, shards=1, x64=False)
def invariants32(case, rec):
    """the same in the default single precision"""
    measures_of(case, rec)


@composite
def gen_hencky(draw):
    kinds = arr(draw, (NT,), 0, 1)
    s = np.exp(np.array(arr(draw, (NT, 3), -1, 1)) * lognum(draw, 1e-6, 6.0, 32))
    for i, k in enumerate(kinds):
        if k < 0.2:
            s[i] = s[i, 0]
        elif k < 0.4:
            s[i, 1] = s[i, 0]
        elif k < 0.5:
            s[i] = 1.0
    return dict(s=s.tolist(), q=arr(draw, (NT, 4), -1, 1), r=arr(draw, (NT, 4), -1, 1), p=arr(draw, (NT,), -1, 1), qd=arr(draw, (NT,), 0, 1), size=lognum(draw, 1e-3, 1e7, 16),
                rho=arr(draw, (NT,), 500, 3000), depth=arr(draw, (NT,), 0, 50), grav=num(draw, 0, 20), slope=num(draw, -60, 60), k0=num(draw, 0, 2))


@eqx.filter_jit
def hencky_eval(F, p, q):
    s = mh.reconstruct_stress_from_triaxial(p, q)
    return (mh.get_hencky_strain(F), mh.get_hencky_strain(F[2]), mh.get_hencky_strain_stack(F), mh.get_hencky_strain(F.reshape(2, 3, 3, 3)), mh.get_volumetric_strain(mh.get_hencky_strain(F)),
            s, mh.get_pressure(s), mh.get_q_vm(s))


@part(gen_hencky, quick=800, thorough=40000, shards=1)
def stretches(case, rec):
    """logarithmic strain of any stretch and rotation; stress rebuilt from pressure and shear; lithostatic pressure and shear"""
    s = np.array(case["s"])
    Q = np.array([rotation3(q) for q in case["q"]])
    R = np.array([rotation3(q) for q in case["r"]])
    F = np.einsum("nik,nk,njk->nij", Q, s, Q) @ R
    p, q = np.array(case["p"]) * case["size"], np.array(case["qd"]) * case["size"]
    rho, z = np.array(case["rho"]), np.array(case["depth"])
    e, e1, es, ed, ev, sig, ps, qs = hencky_eval(A(F), A(p), A(q))
    pl, ql = mh.precondition_from_lithostatic(A(rho), A(z), case["grav"], slope_angle_deg=case["slope"], k0=case["k0"])
    want = np.einsum("nik,nk,njk->nij", Q, -np.log(s), Q)
    tol = 1e-13 * (s.max(1) / s.min(1)).max() + 1e-12
    rec.close(e, want, rtol=0, atol=10 * tol, msg="logarithmic strain")
    rec.close(e1, want[2], rtol=0, atol=10 * tol, msg="logarithmic strain (single)")
    rec.close(es, want, rtol=0, atol=10 * tol, msg="logarithmic strain (stack)")
    rec.close(N(ed).reshape(NT, 3, 3), want, rtol=0, atol=10 * tol, msg="logarithmic strain (nested)")
    rec.close(ev, -np.log(s.prod(1)), rtol=0, atol=30 * tol, msg="volumetric logarithmic strain")
    rec.close(ps, p, rtol=1e-10, scale=case["size"], msg="pressure of the rebuilt stress")
    rec.close(qs, q, rtol=1e-10, scale=case["size"], msg="shear of the rebuilt stress")
    rec.close(sig, np.swapaxes(N(sig), 1, 2), rtol=1e-12, scale=case["size"], msg="symmetry of the rebuilt stress")
    th = np.radians(case["slope"])
    sv = rho * case["grav"] * z
    T = np.zeros((NT, 3, 3))
    T[:, 0, 0] = T[:, 1, 1] = case["k0"] * sv * np.cos(th)
    T[:, 2, 2] = sv * np.cos(th)
    T[:, 0, 2] = T[:, 2, 0] = sv * np.sin(th)
    rec.close(pl, ref.pressure(T), rtol=1e-9, scale=sv.max() * 3 + 1e-9, msg="lithostatic pressure")
    rec.close(ql, ref.qvm(T), rtol=1e-8, scale=sv.max() * 3 + 1e-9, msg="lithostatic shear")
    rec.nt(bool(np.abs(want).max() > 1e-5))
    rec.label("large" if np.abs(want).max() > 1 else "moderate" if np.abs(want).max() > 1e-3 else "tiny")


@composite
def gen_numbers(draw):
    return dict(phi=arr(draw, (NT,), 0.05, 1.0), e=(np.array(arr(draw, (NT,), 0, 1)) * 5).tolist(), p=(np.array(arr(draw, (NT,), 0, 1)) * lognum(draw, 1e-2, 1e7, 16) + 1e-5).tolist(),
                rate=(np.array(arr(draw, (NT,), 0, 1)) * lognum(draw, 1e-4, 1e3, 16)).tolist(), d=lognum(draw, 1e-5, 0.1, 16), rho=num(draw, 500, 4000), bulk=arr(draw, (NT,), 300, 4000), L=arr(draw, (3, 3), -1, 1),
                dt=lognum(draw, 1e-6, 0.3, 16), m=arr(draw, (NT,), 0, 5), v=arr(draw, (NT, 3), -5, 5))


@eqx.filter_jit
def number_eval(c):
    return dict(e=mh.phi_to_e(c["phi"]), es=mh.phi_to_e_stack(c["phi"]), phi=mh.e_to_phi(c["e"]), phis=mh.e_to_phi_stack(c["e"]), back=mh.e_to_phi(mh.phi_to_e(c["phi"])), I=mh.get_inertial_number(c["p"], c["rate"], c["d"], c["rho"]),
                Is=mh.get_inertial_number_stack(c["p"], c["rate"], c["d"], c["rho"]), eb=mh.get_e_from_bulk_density(c["rho"], c["bulk"]), pb=mh.get_phi_from_bulk_density(c["rho"], c["bulk"]),
                pbs=mh.get_phi_from_bulk_density_stack(c["rho"], c["bulk"]), phiL=mh.get_phi_from_L(c["L"], c["phi"], c["dt"]), ke=mh.get_KE(c["m"][0], c["v"][0]), kes=mh.get_KE_stack(c["m"], c["v"]))


@part(gen_numbers, quick=800, thorough=40000, shards=1)
def numbers(case, rec):
    """void ratio, solid fraction, inertial number and kinetic energy against their definitions"""
    c = {k: np.array(v) for k, v in case.items()}
    g = {k: N(v) for k, v in number_eval({k: A(v) for k, v in case.items()}).items()}
    for k in ("e", "es"):
        rec.close(g[k], (1 - c["phi"]) / c["phi"], rtol=1e-11, scale=20, msg="void ratio")
    for k in ("phi", "phis"):
        rec.close(g[k], 1 / (1 + c["e"]), rtol=1e-11, scale=1, msg="solid fraction")
    rec.close(g["back"], c["phi"], rtol=1e-11, scale=1, msg="solid fraction there and back")
    I = c["rate"] * c["d"] * np.sqrt(c["rho"] / c["p"])
    for k in ("I", "Is"):
        rec.close(g[k], I, rtol=1e-10, scale=np.abs(I), msg="inertial number")
    rec.close(g["eb"], (c["rho"] - c["bulk"]) / c["bulk"], rtol=1e-11, scale=20, msg="void ratio from densities")
    for k in ("pb", "pbs"):
        rec.close(g[k], c["bulk"] / c["rho"], rtol=1e-11, scale=10, msg="solid fraction from densities")
    rec.close(g["phiL"], c["phi"] / (1 - np.trace(c["L"]) * c["dt"]), rtol=1e-10, scale=20, msg="solid fraction from the mass balance")
    ke = 0.5 * c["m"] * (c["v"] ** 2).sum(1)
    rec.close(g["ke"], ke[0], rtol=1e-11, scale=200, msg="kinetic energy")
    rec.close(g["kes"], ke, rtol=1e-11, scale=200, msg="kinetic energies")
    rec.nt(True)


DIMS = [dict(dim=2), dict(dim=3)]


@composite
def gen_points(draw):
    dim = pick(draw, *share(DIMS))["dim"]
    h = gen_hencky_core(draw)
    return dict(dim=dim, pos=arr(draw, (NT, dim), -1, 1), vel=(np.array(arr(draw, (NT, dim), -1, 1)) * lognum(draw, 1e-3, 1e2, 16)).tolist(), mass=arr(draw, (NT,), 0.1, 2), vol=(np.array(arr(draw, (NT,), 0.1, 2)) * lognum(draw, 1e-6, 1.0, 16)).tolist(),
                vol0=arr(draw, (NT,), 0.1, 2), stress=sym(draw_tensors(draw, 1e-2, 1e6)).tolist(), L=draw_tensors(draw, 1e-3, 1e2).tolist(), F=h[0].tolist(), e=h[1].tolist(), F2=h[2].tolist(), e2=h[3].tolist())


def gen_hencky_core(draw):
    out = []
    for _ in range(2):
        s = np.exp(np.array(arr(draw, (NT, 3), -1, 1)) * 0.8)
        Q = np.array([rotation3(q) for q in arr(draw, (NT, 4), -1, 1)])
        R = np.array([rotation3(q) for q in arr(draw, (NT, 4), -1, 1)])
        out += [np.einsum("nik,nk,njk->nij", Q, s, Q) @ R, np.einsum("nik,nk,njk->nij", Q, -np.log(s), Q)]
    return out


NAMES = ("density_stack", "density_ref_stack", "pressure_stack", "KE_stack", "q_stack", "eps_stack", "eps_v_stack", "deps_dt_stack", "shear_strain_rate_stack", "shear_strain_stack", "stored_eps_stack", "stored_shear_strain_stack")


@eqx.filter_jit
def props(mp):
    return {k: getattr(mp, k) for k in NAMES}


@part(gen_points, quick=400, thorough=20000, shards=2)
def derived(case, rec):
    """the quantities material points report against the definitions on their own fields"""
    c = {k: np.array(v) for k, v in case.items()}
    mp = make_mp(pos=c["pos"], vel=c["vel"], mass=c["mass"], vol=c["vol"], vol0=c["vol0"], stress=c["stress"], L=c["L"], F=c["F"], store_F=True)
    mp = eqx.tree_at(lambda m: m.F_store_stack, mp, A(c["F2"]))
    g = {k: N(v) for k, v in props(mp).items()}
    S, D = np.abs(c["stress"]).max(), ref.symm(c["L"])
    vm = lambda e: np.sqrt(2 / 3 * (ref.dev(e) ** 2).sum((1, 2)))
    for k, w, rt, sc in (("density_stack", c["mass"] / c["vol"], 1e-8, c["mass"] / c["vol"]), ("density_ref_stack", c["mass"] / c["vol0"], 1e-10, 20), ("pressure_stack", ref.pressure(c["stress"]), 1e-10, S), ("KE_stack", 0.5 * c["mass"] * (c["vel"] ** 2).sum(1), 1e-10, (c["vel"] ** 2).max() * 4),
                         ("q_stack", ref.qvm(c["stress"]), 1e-7, S), ("eps_stack", c["e"], 1e-9, 1), ("eps_v_stack", np.trace(c["e"], axis1=1, axis2=2), 1e-9, 1), ("deps_dt_stack", D, 1e-10, np.abs(D).max() + 1e-30),
                         ("shear_strain_rate_stack", vm(D), 1e-7, np.abs(D).max() + 0.2), ("shear_strain_stack", vm(c["e"]), 1e-7, 1), ("stored_eps_stack", c["e2"], 1e-9, 1), ("stored_shear_strain_stack", vm(c["e2"]), 1e-7, 1)):
        rec.close(g[k], w, rtol=rt, scale=sc, msg=k)
    rec.check(mp.num_points == NT and mp.dim == case["dim"], "number of points and dimension")
    rec.nt(True)
    rec.label(f"{case['dim']}D")
