"""C13: granular rheology shear stress is friction times pressure."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a mu(I) material and five particles with reference density, density ratio (0.5-1.5), and strain rates "
        "spanning quasi-static to collisional. Non-trivial: a particle is compressed and sheared.")
ASSUMPTIONS = ["regularised friction: mu_s g / sqrt(g^2 + alpha^2) + (mu_d - mu_s) I / (I_0 + I), I = d g / sqrt(p / rho_p)"]
NPT = 5


@composite
def gen(draw):
    mu_s = num(draw, 0.05, 1.0, 64)
    f = dict(mu_s=mu_s, mu_d=mu_s + pick(draw, 0.3, 0.0, num(draw, 0, 1, 32)), I_0=lognum(draw, 1e-3, 1.0, 32), d_p=lognum(draw, 1e-5, 1e-1, 32),
             K=lognum(draw, 1e2, 1e8, 64), rho_p=lognum(draw, 500, 5000, 16), alpha=pick(draw, 1e-6, 1e-3, 1.0), p_min_calc=pick(draw, 0.0, 10.0))
    r = np.array(arr(draw, (NPT,), 0.0, 1.0))
    near = boolean(draw)
    ratio = 1 + (r - 0.3) * 1e-3 if near else 0.5 + r
    mag = 10.0 ** (np.array(arr(draw, (NPT,), 0.0, 1.0)) * 8 - 5)
    return dict(law=f, ratio=ratio.tolist(), rho=(np.array(arr(draw, (NPT,), 0.1, 1.0)) * 3000).tolist(), mass=arr(draw, (NPT,), 0.01, 10.0),
                L=(np.array(arr(draw, (NPT, 3, 3))) * mag[:, None, None]).tolist(), stress=(sym(arr(draw, (NPT, 3, 3))) * 1e4).tolist(),
                dt=lognum(draw, 1e-6, 1.0, 12), p=(np.array(arr(draw, (NPT,), 0.001, 1.0)) * f["K"]).tolist(), k=num(draw, 1.0, 100.0, 64))


def sigma(law, mass, vol, ls, L, stress, dt):
    mp = make_mp(len(mass), stress=stress, L=L, mass=mass, vol=vol, vol0=vol)
    mp1, ls1 = law_update(law, mp, ls, dt)
    return N(mp1.stress_stack), mp, mp1, ls1


@part(gen, quick=1200, thorough=40000, shards=4)
def rheology(case, rec):
    """pressure, friction law, alignment, bounds, monotony, disconnection, state creation"""
    f = case["law"]
    law = make_law("mui", **f)
    rho0, ratio, m = np.array(case["rho"]), np.array(case["ratio"]), np.array(case["mass"])
    L, s0, dt = np.array(case["L"]), np.array(case["stress"]), case["dt"]
    with quiet():
        ls = law.create_state_from_density(A(rho0))
    rec.close(ls.density_ref_stack, rho0, rtol=1e-12, msg="reference density")
    if np.any(np.abs(ratio - 1) < 1e-9):
        rec.label("at the reference density")
        return
    vol = m / (rho0 * ratio)
    s, mp, mp1, ls1 = sigma(law, m, vol, ls, L, s0, dt)
    on = ratio > 1
    rec.close(s[~on], np.zeros_like(s[~on]), msg="disconnected stress")
    p = np.maximum(f["K"] * (ratio - 1), f["p_min_calc"])
    pw = np.where(on, p, 0.0)
    psc = f["K"] * ratio * 1e-3 + pw
    D = ref.dev(ref.symm(L))
    g = np.sqrt(2 * np.sum(D * D, axis=(1, 2)))
    I = f["d_p"] * g / np.sqrt(np.maximum(p, 1e-300) / f["rho_p"])
    mu = f["mu_s"] * g / np.sqrt(g * g + f["alpha"] ** 2) + (f["mu_d"] - f["mu_s"]) * I / (f["I_0"] + I)
    rec.close(ref.pressure(s)[on], pw[on], rtol=1e-7, scale=psc[on], msg="pressure")
    rec.close(np.sqrt(ref.j2(s))[on], (mu * p)[on], rtol=1e-7, scale=(psc * (f["mu_d"] + 1))[on], msg="friction")
    # the same relative to the pressure the law reports
    pr = ref.pressure(s)[on]
    if np.any(on):
        rec.check(np.all(np.sqrt(ref.j2(s))[on] <= f["mu_d"] * pr * (1 + 1e-7) + 1e-12), "friction above the dynamic value")
    sd = ref.dev(s)
    unit = np.where((g > 0)[:, None, None], D / np.maximum(g, 1e-300)[:, None, None] * 2, 0.0)
    rec.close(sd[on], (np.sqrt(ref.j2(s))[:, None, None] * unit)[on], rtol=1e-7, scale=(psc * (f["mu_d"] + 1))[on][:, None, None], msg="alignment")
    # faster shear, same pressure: friction does not drop
    s2 = sigma(law, m, vol, ls, L * case["k"], s0, dt)[0]
    a, b = np.sqrt(ref.j2(s))[on], np.sqrt(ref.j2(s2))[on]
    rec.check(np.all(b >= a * (1 - 1e-8)), "friction falls with the inertial number")
    rec.same(ls1.density_ref_stack, ls.density_ref_stack, "reference density changed")
    for k in ("position_stack", "velocity_stack", "mass_stack", "volume_stack", "volume0_stack", "F_stack", "L_stack"):
        rec.same(getattr(mp1, k), getattr(mp, k), k + " changed by the law")
    # state creation
    rho = rho0 * ratio
    pp = np.array(case["p"]) + f["p_min_calc"]
    with quiet():
        lsp = law.create_state_from_density(A(rho), A(pp))
    sp = sigma(law, m, m / rho, lsp, np.zeros_like(L), s0, dt)[0]
    rec.close(sp, pp[:, None, None] * np.eye(3), rtol=1e-8, scale=f["K"] + pp.max(), msg="prescribed pressure")
    iso = ref.dev(s0) * 0.1 + pp[:, None, None] * np.eye(3)
    mpi = make_mp(NPT, stress=iso, mass=m, vol=m / rho, vol0=m / rho)
    with quiet():
        lsm = law.create_state(mpi)
    mpi1, _ = law_update(law, mpi, lsm, dt)
    rec.close(ref.pressure(N(mpi1.stress_stack)), pp, rtol=1e-8, scale=f["K"] + pp.max(), msg="pressure from material points")
    # a body already deformed when its state is made: the reference is its initial density
    J = 1 + 0.2 * (ratio - 1)
    mpd = make_mp(NPT, stress=iso, mass=m, vol=m / rho * J, vol0=m / rho)
    with quiet():
        lsd = law.create_state(mpd)
    rec.close(lsd.density_ref_stack, lsm.density_ref_stack, rtol=1e-10, msg="reference from the initial density of a deformed body")
    rec.nt(np.any(on & (g > 0)))
    rec.label("connected" if np.any(on) else "all loose", "some loose" if np.any(~on) else "all connected")
    if np.any(on):
        rec.label("I<I0" if I[on].min() < f["I_0"] else "", "I>I0" if I[on].max() > f["I_0"] else "")
