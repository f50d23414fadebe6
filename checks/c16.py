"""C16: Cam Clay initial states lie where they are asked to lie."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *
from checks.c15 import draw_mcc, lnv, clampK

# the parts of c15 are registered by its import
from lib.pbt import PARTS
for _n in [n for n in PARTS]:
    PARTS.pop(_n)

RULE = ("A case is a Cam Clay material and 1 or 4 particles with pressure, over-consolidation ratio, shear and density. "
        "Non-trivial: the state is over-consolidated or carries shear.")
ASSUMPTIONS = ["pressures above 2 p_min_calc; equilibrium is checked where the state is denser than the reference line"]


def qvm_of(s):
    return ref.qvm(s)


def equilibrium(rec, f, law, ls, stress, rho, n, tag, atol=0.0):
    """A zero increment returns the stress and keeps the state, where the particle is connected."""
    mp = make_mp(n, stress=stress, L=np.zeros((n, 3, 3)), mass=rho, vol=np.ones(n), vol0=np.ones(n))
    mp1, ls1 = law_update(law, mp, ls, 1e-3)
    v = f["rho_p"] / rho
    ok = (v < f["N"] * 0.9999)
    s1 = N(mp1.stress_stack)
    sc = np.abs(stress).max(axis=(1, 2))[:, None, None] + 1e-9
    rec.close(s1[ok], stress[ok], rtol=1e-6, atol=atol, scale=sc[ok], msg=tag + " equilibrium")
    rec.close(N(ls1.p_c_stack)[ok], N(ls.p_c_stack)[ok], rtol=1e-6, msg=tag + " preconsolidation at rest")
    rec.finite(s1, tag + " stress")
    if np.any(ok):
        rec.label(tag + " connected")
    # advanced by a small compression: everything stays finite and the pressure rises
    mp2, ls2 = law_update(law, eqx.tree_at(lambda m: m.L_stack, mp, A(np.tile(np.eye(3) * 1e-3 * f["kap"], (n, 1, 1)))), ls, 1.0)
    rec.finite(mp2.stress_stack, tag + " advanced stress")
    rec.finite(ls2.p_c_stack, tag + " advanced preconsolidation")
    rec.finite(ls2.eps_e_stack, tag + " advanced elastic strain")
    p1, p2 = ref.pressure(stress), ref.pressure(N(mp2.stress_stack))
    M = f["M"]
    wet = 2 * p1 > N(ls.p_c_stack)
    rec.check(np.all((p2 > p1)[ok & wet]), tag + " pressure does not rise in compression")


@composite
def gen(draw):
    f = draw_mcc(draw)
    n = pick(draw, 4, 1)
    return dict(law=f, n=n, p=(f["p_ref"] * np.exp(np.array(arr(draw, (n,), -1.0, 6.0)))).tolist(), scalar=boolean(draw),
                ocr=(1 + pick(draw, 0.0, 0.5, 6.0) * np.array(arr(draw, (n,), 0.0, 1.0))).tolist(),
                qf=arr(draw, (n,), 0.0, 1.8), use_q=boolean(draw), sign=pick(draw, 1, 1, -1, [1, -1]))


@part(gen, quick=700, thorough=20000, shards=4)
def from_ocr(case, rec):
    """pressure, ratio, density on the swelling line, shear kept inside and reduced to yield outside"""
    f, n = case["law"], case["n"]
    law = make_law("mcc", **f)
    p, ocr = np.array(case["p"]), np.array(case["ocr"])
    if case["scalar"]:
        ocr = np.full(n, ocr[0])
    qy = f["M"] * p * np.sqrt(np.maximum(ocr - 1, 0))
    # a negative shear stress is that of triaxial extension
    sign = np.resize(np.atleast_1d(case.get("sign", 1)), n)
    q = sign * np.array(case["qf"]) * np.where(qy > 0, qy, 0.3 * f["M"] * p)
    with quiet():
        ls, stress, rho = law.create_state_from_ocr(p_stack=A(p), ocr_stack=jnp.asarray(ocr[0]) if case["scalar"] else A(ocr), q_stack=A(q) if case["use_q"] else None)
    s = N(stress)
    want_q = np.clip(q, -qy, qy) if case["use_q"] else np.zeros(n)
    rec.close(ls.p_c_stack, p * ocr, rtol=1e-12, msg="preconsolidation pressure")
    rec.close(ref.pressure(s), p, rtol=1e-10, msg="pressure", scale=p)
    rec.close(qvm_of(s), np.abs(want_q), rtol=1e-7, scale=p, msg="shear stress")
    rec.close(s[:, 2, 2] - s[:, 0, 0], want_q, rtol=1e-7, scale=p, msg="axial less lateral stress")
    rec.close(s, np.swapaxes(s, 1, 2), rtol=1e-12, msg="symmetry")
    rec.close(ls.stress_ref_stack, s, rtol=1e-12, msg="reference stress")
    rec.close(np.log(f["rho_p"] / N(rho)), lnv(f, p, p * ocr), rtol=1e-10, scale=1.0, msg="swelling line")
    rec.check(np.all(N(ls.eps_e_stack) == 0), "initial elastic strain")
    rec.check(N(ls.p_c_stack).shape == (n,) and N(rho).shape == (n,) and s.shape == (n, 3, 3), "shapes")
    # states made on the swelling line, from the same pressure and density, agree
    with quiet():
        ls2, v2 = law.create_state_from_density(p_stack=A(p), density_stack=rho)
    rec.close(ls2.p_c_stack, p * ocr, rtol=1e-7, scale=p * ocr, msg="inverse of the swelling line")
    rec.close(v2, f["rho_p"] / N(rho), rtol=1e-12, msg="specific volume")
    rec.close(ls2.stress_ref_stack, p[:, None, None] * np.eye(3), rtol=1e-10, msg="stress from density")
    equilibrium(rec, f, law, ls, s, N(rho), n, "ocr")
    equilibrium(rec, f, law, ls2, p[:, None, None] * np.eye(3), N(rho), n, "density")
    rec.nt(np.any(ocr > 1) or np.any(want_q != 0))
    rec.label("extension" if case["use_q"] and np.any(q < 0) else "compression", "with q" if case["use_q"] else "isotropic", "clipped" if case["use_q"] and np.any(np.abs(q) > qy) else "inside", f"n{n}")


@part(gen, quick=400, thorough=10000, shards=2)
def from_stress(case, rec):
    """states from p and q lie on the yield surface; states from material points carry their pressure"""
    f, n = case["law"], case["n"]
    law = make_law("mcc", **f)
    p = np.array(case["p"])
    sign = np.resize(np.atleast_1d(case.get("sign", 1)), n)
    q = sign * np.array(case["qf"]) * f["M"] * p * 0.8
    with quiet():
        ls, rho = law.create_state_from_stress(p_stack=A(p), q_stack=A(q))
    pc = N(ls.p_c_stack)
    rec.close((q / f["M"]) ** 2 + p * p, pc * p, rtol=1e-10, scale=pc * p, msg="on the yield surface")
    s = N(ls.stress_ref_stack)
    rec.close(ref.pressure(s), p, rtol=1e-10, scale=p, msg="pressure")
    rec.close(qvm_of(s), np.abs(q), rtol=1e-7, scale=p, msg="shear stress")
    rec.close(s[:, 2, 2] - s[:, 0, 0], q, rtol=1e-7, scale=p, msg="axial less lateral stress")
    rec.close(np.log(f["rho_p"] / N(rho)), lnv(f, p, pc), rtol=1e-10, scale=1.0, msg="swelling line")
    equilibrium(rec, f, law, ls, s, N(rho), n, "stress")
    mp = make_mp(n, stress=s, mass=N(rho), vol=np.ones(n), vol0=np.ones(n))
    with quiet():
        lm = law.create_state(mp)
    rec.close(lm.p_c_stack, p, rtol=1e-10, scale=p, msg="state from material points")
    rec.close(ref.pressure(N(lm.stress_ref_stack)), p, rtol=1e-10, scale=p, msg="reference stress from material points")
    rec.nt(np.any(q != 0))
    rec.label("wet" if np.all(2 * p >= pc) else "dry", f"n{n}")


@part(gen, quick=300, thorough=8000)
def lines(case, rec):
    """normal consolidation, critical state and swelling lines meet where they should; helpers match their formulas"""
    f = case["law"]
    C = hdx.ModifiedCamClay
    N0, lam, kap, pr, M = f["N"], f["lam"], f["kap"], f["p_ref"], f["M"]
    p = np.array(case["p"])
    ocr = np.array(case["ocr"])
    pc = p * ocr
    rec.close(C.get_v_ncl(A(pr), pr, N0, lam), N0, rtol=1e-12, msg="NCL at the reference pressure")
    rec.close(C.get_v_ncl(A(pc), pr, N0, lam), N0 * (pr / pc) ** lam, rtol=1e-10, msg="NCL")
    rec.close(C.get_v_sl(A(p), A(p), pr, N0, lam, kap), C.get_v_ncl(A(p), pr, N0, lam), rtol=1e-10, msg="swelling line meets NCL")
    rec.close(C.get_v_sl(A(pc), A(p), pr, N0, lam, kap), np.exp(lnv(f, p, pc)), rtol=1e-10, msg="swelling line")
    # the critical state line crosses each swelling line at p = pc / 2
    rec.close(C.get_v_csl(A(pc / 2), pr, N0, lam, kap), C.get_v_sl(A(pc), A(pc / 2), pr, N0, lam, kap), rtol=1e-10, msg="CSL crosses the swelling line at half pc")
    qp = N(C.get_qp_ys(A(pc), A(pc / 2), M))
    rec.close(qp, np.full_like(p, M), rtol=1e-10, msg="stress ratio at critical state")
    q = N(C.get_qp_ys(A(pc), A(p), M)) * p
    rec.close(C.yield_function(A(p), A(pc), A(q), M), np.zeros_like(p), atol=1e-9 * (pc * p).max(), rtol=0, msg="yield function on its surface")
    rec.check(np.all(N(C.yield_function(A(p), A(pc), A(q * 1.01 + p * 1e-3), M)) > 0), "yield function outside")
    rec.close(C.get_pressure_mcc(A(0.3 * kap), kap, A(p)), p * np.exp(0.3), rtol=1e-10, msg="elastic pressure")
    rec.close(C.get_nc_pressure_mcc(A(0.3 * (lam - kap)), lam - kap, A(pc)), pc * np.exp(0.3), rtol=1e-10, msg="hardening")
    K = N(C.get_K(kap, A(p), f.get("K_min"), f.get("K_max")))
    rec.close(K, clampK(f, p), rtol=1e-10, msg="bulk modulus")
    rec.close(C.get_G(f["nu"], A(K)), 3 * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"])) * K, rtol=1e-10, msg="shear modulus")
    with quiet():
        ls, *_ = make_law("mcc", **f).create_state_from_ocr(A(p), A(ocr))
    rec.close(ls.p_s_stack, pc / 2, rtol=1e-10, msg="critical pressure of a state")
    rec.nt(np.any(ocr > 1))


@part(gen, quick=200, thorough=6000, x64=False)
def single_precision(case, rec):
    """states on the yield surface stay in equilibrium in the default 32-bit precision"""
    f, n = case["law"], case["n"]
    law = make_law("mcc", **f)
    p = np.array(case["p"])
    q = np.array(case["qf"]) * f["M"] * p * 0.5
    with quiet():
        ls, rho = law.create_state_from_stress(p_stack=A(p), q_stack=A(q))
    s, v = N(ls.stress_ref_stack), f["rho_p"] / N(rho)
    mp = make_mp(n, stress=s, L=np.zeros((n, 3, 3)), mass=N(rho), vol=np.ones(n), vol0=np.ones(n))
    mp1, ls1 = law_update(law, mp, ls, 1e-3)
    ok = v < f["N"] * 0.999
    rec.close(N(mp1.stress_stack)[ok], s[ok], rtol=2e-3, scale=np.abs(s).max(axis=(1, 2))[ok][:, None, None], msg="equilibrium (float32)")
    rec.close(N(ls1.p_c_stack)[ok], N(ls.p_c_stack)[ok], rtol=2e-3, msg="preconsolidation at rest (float32)")
    rec.nt(np.any(ok))
    rec.label("connected" if np.any(ok) else "loose")
