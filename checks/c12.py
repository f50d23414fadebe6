"""C12: Newtonian fluid pressure and viscosity follow the equation of state."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a fluid (bulk modulus, viscosity, exponent) and five particles with reference density, density ratio "
        "(0.05-3), velocity gradient and previous stress. Non-trivial: a particle is compressed or strained.")
NPT = 5


def draw_fluid(draw):
    return dict(K=lognum(draw, 1.0, 1e9, 64), viscosity=pick(draw, 0.0, lognum(draw, 1e-4, 1e4, 64)), beta=pick(draw, 7.0, 1.0, 2.0, num(draw, 1, 8, 28)))


@composite
def gen(draw):
    f = draw_fluid(draw)
    near = boolean(draw)
    r = np.array(arr(draw, (NPT,), 0.0, 1.0))
    ratio = 1 + (r - 0.4) * 0.1 if near else 0.05 + 2.95 * r
    return dict(law=f, ratio=ratio.tolist(), rho=(np.array(arr(draw, (NPT,), 0.1, 1.0)) * 3000).tolist(),
                mass=arr(draw, (NPT,), 0.01, 10.0), L=(np.array(arr(draw, (NPT, 3, 3))) * lognum(draw, 1e-3, 1e3, 24)).tolist(),
                stress=(sym(arr(draw, (NPT, 3, 3))) * 1e4).tolist(), dt=lognum(draw, 1e-6, 1.0, 12), p=(np.array(arr(draw, (NPT,), 0.0, 1.0)) * f["K"]).tolist())


def sigma(law, mass, vol, ls, L, stress, dt):
    mp = make_mp(len(mass), stress=stress, L=L, mass=mass, vol=vol, vol0=vol)
    mp1, ls1 = law_update(law, mp, ls, dt)
    return N(mp1.stress_stack), mp, mp1, ls1


@part(gen, quick=1200, thorough=40000, shards=4)
def equation_of_state(case, rec):
    """pressure from the density ratio, deviator from the strain rate, no memory, monotone, state creation inverts"""
    f = case["law"]
    law = make_law("fluid", **f)
    rho0, ratio, m = np.array(case["rho"]), np.array(case["ratio"]), np.array(case["mass"])
    rho = rho0 * ratio
    L, s0, dt = np.array(case["L"]), np.array(case["stress"]), case["dt"]
    with quiet():
        ls = law.create_state_from_density(A(rho0))
    rec.close(ls.density_ref_stack, rho0, rtol=1e-12, msg="reference density at zero pressure")
    s, mp, mp1, ls1 = sigma(law, m, m / rho, ls, L, s0, dt)
    pw = np.maximum(f["K"] * (ratio ** f["beta"] - 1.0), 0.0)
    sc = pw + f["K"] * 1e-6 + f["viscosity"] * np.abs(L).max(axis=(1, 2))
    rec.close(ref.pressure(s), pw, rtol=1e-8, scale=sc, msg="pressure")
    rec.close(ref.dev(s), 2 * f["viscosity"] * ref.dev(ref.symm(L)), rtol=1e-8, scale=sc[:, None, None], msg="viscous stress")
    rec.check(np.all(ref.pressure(s) >= -1e-9 * sc), "negative pressure")
    rec.same(ls1.density_ref_stack, ls.density_ref_stack, "reference density changed")
    for k in ("position_stack", "velocity_stack", "mass_stack", "volume_stack", "volume0_stack", "F_stack", "L_stack"):
        rec.same(getattr(mp1, k), getattr(mp, k), k + " changed by the law")
    # no memory of stress or step size
    s2 = sigma(law, m, m / rho, ls, L, np.zeros_like(s0), dt * 10)[0]
    rec.close(s2, s, rtol=1e-12, scale=np.abs(s).max() + 1e-30, msg="memory")
    # monotone in density
    order = np.argsort(ratio)
    ls_same = eqx.tree_at(lambda t: t.density_ref_stack, ls, A(np.full(NPT, rho0[0])))
    p3 = ref.pressure(sigma(law, m, m / (rho0[0] * ratio), ls_same, np.zeros_like(L), s0, dt)[0])[order]
    rec.check(np.all(np.diff(p3) >= -1e-9 * (p3.max() + 1e-30)), "pressure decreases with density")
    # prescribed pressure is reproduced
    p = np.array(case["p"])
    with quiet():
        lsp = law.create_state_from_density(A(rho), A(p))
    sp = sigma(law, m, m / rho, lsp, np.zeros_like(L), s0, dt)[0]
    rec.close(sp, p[:, None, None] * np.eye(3), rtol=1e-8, scale=f["K"] + np.abs(p).max(), msg="prescribed pressure")
    iso = s0 - ref.dev(s0) * 0.5
    iso = iso - np.minimum(ref.pressure(iso), 0)[:, None, None] * np.eye(3)
    mpi = make_mp(NPT, stress=iso, mass=m, vol=m / rho, vol0=m / rho)
    with quiet():
        lsm = law.create_state(mpi)
    mpi1, _ = law_update(law, mpi, lsm, dt)
    rec.close(ref.pressure(N(mpi1.stress_stack)), ref.pressure(iso), rtol=1e-8, scale=f["K"] + np.abs(iso).max(), msg="pressure from material points")
    # a body already deformed when its state is made: the reference is its initial density
    J = 1 + 0.2 * (ratio - 1)
    mpd = make_mp(NPT, stress=iso, mass=m, vol=m / rho * J, vol0=m / rho)
    with quiet():
        lsd = law.create_state(mpd)
    rec.close(lsd.density_ref_stack, lsm.density_ref_stack, rtol=1e-10, msg="reference from the initial density of a deformed body")
    rec.nt(np.any(ratio > 1) or np.abs(L).max() > 0)
    rec.label("compressed" if np.any(ratio > 1) else "loose", "clipped" if np.any(ratio < 1) else "unclipped", "inviscid" if f["viscosity"] == 0 else "viscous")
