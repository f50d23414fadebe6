"""C15: Modified Cam Clay stays admissible and on its compression lines."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a Cam Clay material and four particles with their own pressure, over-consolidation and shear, driven "
        "along 2-12 increments of up to 0.15 kappa per strain component with the matching volume change. Non-trivial: some increment yields.")
ASSUMPTIONS = ["pressures stay above 2 p_min_calc; the return is a damped Newton iteration (0.8 x 10), so yield and flow "
               "are checked to 1e-4 relative plus the convergence of that iteration; stress rotates by the first-order Jaumann term"]
NPT = 4


def draw_mcc(draw, clamps=True):
    lam = pick(draw, 0.025, 0.2, lognum(draw, 0.01, 0.3, 32))
    f = dict(nu=pick(draw, 0.3, 0.1, num(draw, 0.05, 0.45)), M=pick(draw, 1.2, num(draw, 0.6, 1.6)), lam=lam,
             kap=lam * pick(draw, 0.2, 0.1, num(draw, 0.05, 0.4)), N=pick(draw, 1.7, 2.5, num(draw, 1.3, 4.0)), rho_p=pick(draw, 2650.0, 2000.0),
             p_ref=pick(draw, 1000.0, 500.0, 1.0e4))
    if clamps and pick(draw, False, False, True):
        f["K_min"], f["K_max"] = 1e4, 1e7
    return f


def clampK(f, p):
    K = np.maximum(p, 1.0) / f["kap"]
    if "K_min" in f:
        K = np.clip(K, f["K_min"], f["K_max"])
    return K


def lnv(f, p, pc):
    return np.log(f["N"]) + f["lam"] * np.log(f["p_ref"] / pc) + f["kap"] * np.log(pc / p)


def start(f, law, p, ocr, qf):
    """State on the requested swelling line, with a shear stress a fraction of the yield value."""
    pc = p * ocr
    q = qf * f["M"] * p * np.sqrt(np.maximum(ocr - 1, 0.0))
    with quiet():
        ls, stress, rho = law.create_state_from_ocr(A(p), A(ocr), A(q))
    return ls, N(stress), N(rho), pc


def mk(stress, L, mass, vol):
    return make_mp(len(mass), stress=stress, L=L, mass=mass, vol=vol, vol0=np.ones(len(mass)))


@composite
def gen(draw):
    f = draw_mcc(draw)
    k = integer(draw, 2, 12)
    amp = pick(draw, 0.05, 0.01, 0.15)
    L = np.array(arr(draw, (k, NPT, 3, 3)))
    mode = pick(draw, "mixed", "shear", "compress", "steady")
    if mode == "shear":
        L = ref.dev(L)
    elif mode == "compress":
        L = 0.3 * L + 0.7 * np.eye(3)
    elif mode == "steady":
        L = np.repeat(L[:1], k, 0)
    amp = amp * f["kap"]
    return dict(law=f, p=(f["p_ref"] * np.exp(np.array(arr(draw, (NPT,), 1.5, 6.0)))).tolist(), ocr=(1 + pick(draw, 0.3, 4.0) * np.array(arr(draw, (NPT,), 0.0, 1.0))).tolist(),
                qf=arr(draw, (NPT,), 0.0, 0.99), L=(L * amp).tolist(), dt=pick(draw, 1.0, 0.01), spin=boolean(draw))


@part(gen, quick=800, thorough=30000, shards=6)
def paths(case, rec):
    """yield, elastic response, associated flow and the compression lines at every increment"""
    f, dt = case["law"], case["dt"]
    law = make_law("mcc", **f)
    p, ocr = np.array(case["p"]), np.array(case["ocr"])
    ls, stress, rho, pc = start(f, law, p, ocr, np.array(case["qf"]))
    mass, vol = rho.copy(), np.ones(NPT)
    plastic = False
    live = np.ones(NPT, bool)
    slack = np.zeros(NPT)
    for L in np.array(case["L"]) / dt:
        if not case["spin"]:
            L = ref.symm(L)
        de = ref.symm(L) * dt
        dev = np.trace(de, axis1=1, axis2=2)
        vol = vol * np.exp(-dev)
        pc0 = N(ls.p_c_stack)
        p0 = ref.pressure(stress)
        mp, ls = law_update(law, mk(stress, L, mass, vol), ls, dt)
        new, pc1 = N(mp.stress_stack), N(ls.p_c_stack)
        W = -ref.skew(L) * dt
        rot = stress + W @ stress - stress @ W
        p1, q1 = ref.pressure(new), ref.qvm(new)
        rec.finite(new, "stress")
        ptr = p0 * np.exp(dev / f["kap"])
        Gt = 3 * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"])) * clampK(f, ptr)
        str_ = ref.dev(rot) + 2 * Gt[:, None, None] * ref.dev(de)
        qtr = np.sqrt(1.5 * np.sum(str_ ** 2, axis=(1, 2)))
        ftr = (qtr / f["M"]) ** 2 + ptr ** 2 - pc0 * ptr
        v = f["rho_p"] / (mass / vol)
        for i in range(NPT):
            if not live[i]:
                continue
            if min(p0[i], p1[i], ptr[i]) < 20.0 or v[i] > f["N"] * 0.9999:
                live[i] = False     # outside the stated domain from here on
                rec.label("left the domain")
                continue
            sc = pc0[i] + p0[i]
            rec.close(np.log(v[i]), lnv(f, p1[i], pc1[i]), rtol=1e-8, scale=1.0, atol=slack[i], msg="swelling and compression lines")
            fy = (q1[i] / f["M"]) ** 2 + p1[i] ** 2 - pc1[i] * p1[i]
            rec.le(fy, 0.0, "outside the yield surface", tol=5e-5 * sc * sc)
            rec.margin("yield residual", max(fy, 0) / (5e-5 * sc * sc))
            if abs(ftr[i]) < 1e-9 * sc * sc:
                rec.label("on the surface")
                continue
            if ftr[i] < 0:
                rec.close(p1[i], ptr[i], rtol=1e-9, msg="elastic pressure")
                rec.close(ref.dev(new[i]), str_[i], rtol=1e-8, scale=sc, msg="elastic shear")
                rec.close(pc1[i], pc0[i], rtol=1e-12, msg="preconsolidation in an elastic step")
                rec.label("elastic")
                continue
            plastic = True
            rec.close(fy, 0.0, atol=5e-5 * sc * sc, msg="on the yield surface")
            depv = (f["lam"] - f["kap"]) * np.log(pc1[i] / pc0[i])
            rec.close(f["kap"] * np.log(p1[i] / p0[i]), dev[i] - depv, rtol=0, atol=1e-9, msg="volumetric split")
            G1 = 3 * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"])) * clampK(f, p1[i])
            # s (1 + 6 G Lam) = s_tr, d eps_v^p = Lam M^2 (2 p - pc)
            Lam = (qtr[i] / max(q1[i], 1e-12) - 1) / (6 * G1)
            if q1[i] > 0.02 * sc:
                rec.close(ref.dev(new[i]), str_[i] * (q1[i] / qtr[i]), rtol=1e-8, scale=sc, msg="direction of the deviator")
                rec.check(Lam >= -1e-12 / G1 * 1e3, "negative plastic multiplier")
                big = np.abs(de[i]).max()
                rec.close(Lam * f["M"] ** 2 * (2 * p1[i] - pc1[i]), depv, rtol=0, atol=3e-4 * big + 1e-9, msg="associated flow")
                rec.label("wet" if 2 * p1[i] > pc1[i] else "dry")
            else:
                rec.label("near isotropic yield")
        stress = new
    rec.nt(plastic)
    rec.label("clamped K" if "K_min" in f else "free K")


@composite
def gen_cycle(draw):
    f = draw_mcc(draw, clamps=False)
    return dict(law=f, p=(f["p_ref"] * np.exp(np.array(arr(draw, (NPT,), 2.5, 6.0)))).tolist(), ocr=(1.5 + 4 * np.array(arr(draw, (NPT,), 0.0, 1.0))).tolist(),
                qf=arr(draw, (NPT,), 0.0, 0.5), iso=boolean(draw), k=integer(draw, 1, 4), L=arr(draw, (NPT, 3, 3)), amp=pick(draw, 0.05, 0.2))


@part(gen_cycle, quick=300, thorough=8000, shards=2)
def retrace(case, rec):
    """elastic unloading (isotropic, or shear at constant volume) retraces the states back; loose particles carry nothing"""
    f = case["law"]
    law = make_law("mcc", **f)
    p, ocr = np.array(case["p"]), np.array(case["ocr"])
    qf = np.array(case["qf"]) * (0 if case["iso"] else 1)
    ls, stress, rho, pc = start(f, law, p, ocr, qf)
    vol = np.ones(NPT)
    if case["iso"]:
        de = -np.abs(np.array(case["L"])[:, :1, :1]) * np.eye(3) * case["amp"] * f["kap"]
    else:
        G = 3 * (1 - 2 * f["nu"]) / (2 * (1 + f["nu"])) * p / f["kap"]
        de = ref.dev(ref.symm(case["L"])) * case["amp"] * (p * f["M"] * np.sqrt(ocr - 1) / G)[:, None, None] * 0.2
    path = [de] * case["k"] + [-de] * case["k"]
    states = [stress]
    for d in path:
        vol = vol * np.exp(-np.trace(d, axis1=1, axis2=2))
        mp, ls = law_update(law, mk(states[-1], d, rho, vol), ls, 1.0)
        states.append(N(mp.stress_stack))
    rec.close(ls.p_c_stack, pc, rtol=1e-9, msg="preconsolidation after an elastic cycle")
    for j in range(case["k"] + 1):
        rec.close(states[len(path) - j], states[j], rtol=1e-8, msg="retraced stress")
    # looser than the reference line: no stress, whatever the stress was
    mp, _ = law_update(law, mk(stress, de, rho, np.full(NPT, 1.0) * 1.0001 * f["N"] / (f["rho_p"] / rho)), ls, 1.0)
    rec.check(np.all(N(mp.stress_stack) == 0), "a particle looser than the reference line carries stress")
    rec.nt(np.abs(de).max() > 0)
    rec.label("isotropic" if case["iso"] else "shear")
