"""C32: the unified inertial Cam Clay law joins Cam Clay and inertial flow."""
import importlib.util
import os
import sys

from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c15 as mccpaths

PARTS.clear()

RULE = ("A case is a material (Cam Clay, inertial steady state) and four particles with their own pressure, over-consolidation and "
        "shear, driven along increments of up to 0.1 kappa per strain component with the matching volume change, at a rate where the "
        "inertial terms are negligible, moderate, or switched off. Non-trivial: some increment yields.")
ASSUMPTIONS = ["the return is a damped Newton iteration (0.4 x 20), which leaves up to 4e-5 of the overshoot; pressures stay above the reference pressure",
               "when inertial flow with volume change (I_v) is stopped or turned within one increment, the return may have no solution: such increments are left out", "an elastic increment forgets the inertial number, so the combined volume surface is claimed from the first increment to the first unloading from inertial flow"]
NPT = 4


def module():
    path = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "projects", "unified_elasto_plastic_inertial_mcc", "UEPI_MCC.py")
    if "verif_uepi" not in sys.modules:
        spec = importlib.util.spec_from_file_location("verif_uepi", path)
        m = importlib.util.module_from_spec(spec)
        sys.modules["verif_uepi"] = m
        spec.loader.exec_module(m)
    return sys.modules["verif_uepi"]


def draw_material(draw):
    f = mccpaths.draw_mcc(draw, clamps=False)
    m = dict(nu=f["nu"], M_csl=f["M"], lam=f["lam"], kap=f["kap"], rho_p=f["rho_p"], p_ref=f["p_ref"], N=f["N"], by=pick(draw, "N", "gamma"))
    mode = pick(draw, "off", "on", "on", "friction", "volume")
    m["d"] = lognum(draw, 1e-6, 1e-2, 16)
    m["mode"] = mode
    m["rate"] = lognum(draw, 1e-3, 10.0, 32)        # strain increments per second of the fastest particle
    m["a"] = dict(I_M=lognum(draw, 0.3, 30.0, 16), I_v=lognum(draw, 1.0, 30.0, 16), M_inf=num(draw, 1.05, 2.0, 16))
    return m


def gamma_of(m):
    return m["N"] * 2.0 ** (m["kap"] - m["lam"])


def parameters(m, amp):
    """Constructor arguments; the characteristic inertial numbers are set against those of the path."""
    kw = {k: m[k] for k in ("nu", "M_csl", "lam", "kap", "rho_p", "p_ref", "d")}
    kw[m["by"]] = m["N"] if m["by"] == "N" else gamma_of(m)
    I0 = m["rate"] * amp * m["d"] * np.sqrt(m["rho_p"] / m["p_ref"])
    if m["mode"] in ("on", "friction"):
        kw.update(M_inf=m["M_csl"] * m["a"]["M_inf"], I_M=I0 * m["a"]["I_M"])
    if m["mode"] in ("on", "volume"):
        kw.update(I_v=I0 * 2.0 * m["a"]["I_v"] / min(m["kap"], m["lam"] - m["kap"]))
    return kw


def friction(kw, I):
    r = kw.get("M_inf", kw["M_csl"]) / kw["M_csl"] - 1.0
    return kw["M_csl"] * (1.0 + I * r / (kw.get("I_M", 1e20) + I))


def lnv(m, kw, p, ps, I):
    return np.log(gamma_of(m)) + m["lam"] * np.log(m["p_ref"] / ps) + m["kap"] * np.log(ps / p) + I / kw.get("I_v", 1e20)


@eqx.filter_jit
def updated(law, mp, ls, dt):
    return law.update(mp, ls, dt)


def begin(case, kw):
    law = module().UEPI_MCC(**{k: FT(v) for k, v in kw.items()})
    p, ocr = np.array(case["p"]), np.array(case["ocr"])
    q = np.array(case["qf"]) * kw["M_csl"] * p * np.sqrt(np.maximum(ocr - 1.0, 0.0))
    with quiet():
        ls, stress, rho = law.create_state_from_ocr(A(p), A(ocr), A(q))
    return law, ls, N(stress), N(rho), p, ocr, q


@composite
def gen(draw):
    m = draw_material(draw)
    k = integer(draw, 2, 12)
    L = np.array(arr(draw, (k, NPT, 3, 3)))
    mode = pick(draw, "mixed", "shear", "compress", "steady", "steady")
    if mode == "shear":
        L = ref.dev(L)
    elif mode == "compress":
        L = 0.3 * L + 0.7 * np.eye(3)
    elif mode == "steady":
        L = np.repeat(L[:1], k, 0)
    amp = pick(draw, 0.03, 0.01, 0.1) * m["kap"]
    return dict(material=m, amp=amp, p=(m["p_ref"] * np.exp(np.array(arr(draw, (NPT,), 1.5, 6.0)))).tolist(),
                ocr=(1 + pick(draw, 0.3, 4.0) * np.array(arr(draw, (NPT,), 0.0, 1.0))).tolist(),
                qf=arr(draw, (NPT,), 0.0, 0.99), L=(L * amp).tolist(), spin=boolean(draw))


def elastic_trial(m, stress, L, dt):
    de = ref.symm(L) * dt
    dev = np.trace(de, axis1=1, axis2=2)
    W = -ref.skew(L) * dt
    rot = stress + W @ stress - stress @ W
    p0 = ref.pressure(stress)
    ptr = p0 * np.exp(dev / m["kap"])
    G = 3 * (1 - 2 * m["nu"]) / (2 * (1 + m["nu"])) * 0.5 * (p0 + ptr) / m["kap"]
    s = ref.dev(rot) + 2 * G[:, None, None] * ref.dev(de)
    return de, dev, p0, ptr, G, s, np.sqrt(1.5 * np.sum(s ** 2, axis=(1, 2)))


@part(gen, quick=500, thorough=20000, shards=6)
def paths(case, rec):
    """at every increment: yield surface with inertial friction, elastic response inside, flow direction, combined volume surface"""
    m = case["material"]
    kw = parameters(m, case["amp"])
    dt = 1.0 / m["rate"]
    law, ls, stress, rho, p, ocr, q = begin(case, kw)
    vol = np.ones(NPT)
    live = np.ones(NPT, bool)
    onvol = np.ones(NPT, bool)
    before = np.zeros((NPT, 3, 3))
    plastic = False
    for L in np.array(case["L"]) / dt:
        if not case["spin"]:
            L = ref.symm(L)
        de, dev, p0, ptr, G, s_tr, qtr = elastic_trial(m, stress, L, dt)
        vol = vol * np.exp(-dev)
        ps0, I0, e0 = N(ls.p_s_stack), N(ls.I_p_stack), N(ls.eps_e_stack)
        W = -ref.skew(L) * dt
        e_tr = e0 + W @ e0 - e0 @ W + de
        mp, ls = updated(law, mccpaths.mk(stress, L, rho, vol), ls, FT(dt))
        new, ps, I = N(mp.stress_stack), N(ls.p_s_stack), N(ls.I_p_stack)
        p1, q1 = ref.pressure(new), ref.qvm(new)
        rec.finite(new, "stress")
        v = m["rho_p"] / (rho / vol)
        now = ref.dev(de)
        ftr = (qtr / m["M_csl"]) ** 2 + ptr ** 2 - 2 * ps0 * ptr
        for i in range(NPT):
            if not live[i]:
                continue
            sc = 2 * ps0[i] + p0[i]
            if min(p0[i], p1[i], ptr[i], ps[i]) < m["p_ref"]:
                live[i] = False
                rec.label("left the domain")
                continue
            if I0[i] > 1e-20 and "I_v" in kw and np.sum(now[i] * before[i]) < 0.5 * np.sum(before[i] ** 2):
                live[i] = False     # inertial flow that is stopped or turned at once: the return need not converge
                rec.label("turned flow")
                continue
            if abs(ftr[i]) < 1e-9 * sc * sc:
                rec.label("on the surface")
                live[i] = False
                continue
            if ftr[i] < 0:
                rec.close(p1[i], ptr[i], rtol=1e-9, msg="elastic pressure")
                rec.close(ref.dev(new[i]), s_tr[i], rtol=1e-8, scale=sc, msg="elastic shear")
                rec.close(ps[i], ps0[i], rtol=1e-12, msg="critical pressure in an elastic increment")
                turn = np.abs(W[i]).max()
                rec.close(N(ls.eps_e_stack)[i], e_tr[i], rtol=0, atol=1e-9 * np.abs(de[i]).max() + (1e-9 + 4 * turn ** 2) * np.abs(e0[i]).max() + 1e-300, msg="elastic strain of an elastic increment")
                rec.check(I[i] < 1e-15, "an elastic increment has an inertial number")
                if I0[i] > 1e-20:
                    onvol[i] = False
                rec.label("elastic")
            else:
                plastic = True
                fy = (q1[i] / friction(kw, I[i])) ** 2 + p1[i] ** 2 - 2 * ps[i] * p1[i]
                rec.close(fy, 0.0, atol=1.5e-4 * sc * sc, msg="on the yield surface")
                if q1[i] > 0.02 * sc:
                    rec.close(ref.dev(new[i]), s_tr[i] * (q1[i] / qtr[i]), rtol=1e-8, scale=sc, msg="direction of the deviator")
                    Lam = (qtr[i] / q1[i] - 1) / (6 * G[i])
                    depv = dev[i] - m["kap"] * np.log(p1[i] / p0[i])
                    rec.check(Lam * G[i] >= -1e-9, "negative plastic multiplier")
                    rec.close(depv, Lam * m["M_csl"] ** 2 * 2 * (p1[i] - ps[i]), rtol=0, atol=0.005 * np.abs(de[i]).max(), msg="associated volume change")
                    Ip = 2 * Lam * q1[i] / dt * m["d"] * np.sqrt(m["rho_p"] / max(ps[i], m["p_ref"]))
                    rec.close(I[i], Ip, rtol=1e-6, scale=Ip + 1e-20, msg="inertial number of the plastic shear rate")
                rec.label("plastic " + m["mode"])
            if onvol[i]:
                rec.close(np.log(v[i]), lnv(m, kw, p1[i], ps[i], I[i]), rtol=0, atol=1e-9, msg="combined volume surface")
        stress, before = new, now
    rec.nt(plastic)


@composite
def gen_states(draw):
    m = draw_material(draw)
    n = pick(draw, 1, 2, 5)
    return dict(material=m, p=(m["p_ref"] * np.exp(np.array(arr(draw, (n,), -2.0, 7.0)))).tolist(), ocr=(1 + 8 * np.array(arr(draw, (n,), 0.0, 1.0))).tolist(),
                qf=arr(draw, (n,), 0.0, 1.0), q=boolean(draw), one=boolean(draw))


@part(gen_states, quick=150, thorough=3000, shards=1)
def states(case, rec):
    """a state made from pressure and over-consolidation has them, the density of its swelling line and the shear asked for"""
    m = case["material"]
    kw = parameters(m, 0.01)
    law = module().UEPI_MCC(**kw)
    p, ocr = np.array(case["p"]), np.array(case["ocr"])
    if case["one"]:
        ocr = np.full(len(p), ocr[0])
    q = np.array(case["qf"]) * m["M_csl"] * p * np.sqrt(np.maximum(ocr - 1, 0.0))
    args = dict(p_stack=A(p), ocr_stack=A(ocr[0]) if case["one"] else A(ocr))
    if case["q"]:
        args["q_stack"] = A(q)
    else:
        q = np.zeros(len(p))
    ls, stress, rho = law.create_state_from_ocr(**args)
    s = N(stress)
    rec.close(ref.pressure(s), p, rtol=1e-9, msg="pressure of a created state")
    rec.close(ref.qvm(s), q, rtol=1e-7, scale=p.max(), msg="shear of a created state")
    rec.close(N(ls.stress_ref_stack), s, rtol=1e-9, scale=p.max(), msg="reference stress of a created state")
    rec.close(2 * N(ls.p_s_stack), p * ocr, rtol=1e-9, msg="over-consolidation of a created state")
    want = np.log(m["N"]) + m["lam"] * np.log(m["p_ref"] / (p * ocr)) + m["kap"] * np.log(ocr)
    rec.close(np.log(m["rho_p"] / N(rho)), want, rtol=0, atol=1e-9, msg="swelling line of a created state")
    rec.close(float(law.N), m["N"], rtol=1e-9, msg="reference specific volume")
    rec.check(np.all(N(ls.I_p_stack) < 1e-15) and np.all(N(ls.eps_e_stack) == 0), "a created state flows or is strained")
    rec.nt(len(p) > 1)
    rec.label("scalar ocr" if case["one"] else "ocr per particle", "q" if case["q"] else "no q", m["by"])


@composite
def gen_limit(draw):
    c = draw(gen())
    c["material"]["mode"] = "off"
    c["slow"] = lognum(draw, 10.0, 1e6, 16)
    c["q4"] = arr(draw, (4,), -1, 1)
    c["mirror"] = boolean(draw)
    c["spin"] = False
    return c


@part(gen_limit, quick=150, thorough=4000, shards=3)
def limits(case, rec):
    """without inertia the rate of loading does not matter, the result is Cam Clay's to the order of the increment, and it is isotropic"""
    m = case["material"]
    kw = parameters(m, case["amp"])
    Q = rotation3(case["q4"]) * (-1.0 if case["mirror"] else 1.0)
    core = hdx.ModifiedCamClay(nu=m["nu"], M=m["M_csl"], lam=m["lam"], kap=m["kap"], N=m["N"], rho_p=m["rho_p"], p_ref=m["p_ref"])
    law, ls, stress, rho, p, ocr, q = begin(case, kw)
    with quiet():
        lc, sc_, rc = core.create_state_from_ocr(A(p), A(ocr), A(q))
    rec.close(rho, N(rc), rtol=1e-9, msg="initial density is Cam Clay's")
    runs = [dict(ls=ls, s=stress, dt=1.0 / m["rate"], Q=np.eye(3)), dict(ls=ls, s=stress, dt=case["slow"] / m["rate"], Q=np.eye(3)),
            dict(ls=ls, s=Q @ stress @ Q.T, dt=1.0 / m["rate"], Q=Q)]
    cam = dict(ls=lc, s=stress)
    vol = np.ones(NPT)
    plastic = 0
    for k, de in enumerate(ref.symm(np.array(case["L"]))):
        vol = vol * np.exp(-np.trace(de, axis1=1, axis2=2))
        ps0 = N(runs[0]["ls"].p_s_stack)
        for r in runs:
            mp, r["ls"] = updated(law, mccpaths.mk(r["s"], r["Q"] @ de @ r["Q"].T / r["dt"], rho, vol), r["ls"], FT(r["dt"]))
            r["s"] = N(mp.stress_stack)
        mp, cam["ls"] = law_update(core, mccpaths.mk(cam["s"], de, rho, vol), cam["ls"], 1.0)
        cam["s"] = N(mp.stress_stack)
        plastic += int(np.any(N(runs[0]["ls"].p_s_stack) != ps0))
    sc = 2 * ps0.max() + p.max()
    if min(ref.pressure(cam["s"]).min(), ref.pressure(runs[0]["s"]).min()) < m["p_ref"]:
        rec.label("left the domain")
        return
    rec.close(runs[1]["s"], runs[0]["s"], rtol=1e-6, scale=sc, msg="stress at another rate")
    rec.close(N(runs[1]["ls"].p_s_stack), N(runs[0]["ls"].p_s_stack), rtol=1e-6, msg="critical pressure at another rate")
    rec.close(runs[2]["s"], Q @ runs[0]["s"] @ Q.T, rtol=1e-6, scale=sc, msg="stress of rotated loading")
    rec.close(N(runs[2]["ls"].p_s_stack), N(runs[0]["ls"].p_s_stack), rtol=1e-6, msg="critical pressure of rotated loading")
    step = case["amp"] / m["kap"]
    err = np.abs(cam["s"] - runs[0]["s"]).max() / sc
    rec.margin("difference from Cam Clay", err / (0.5 * step))
    rec.check(err <= 0.5 * step, lambda: f"differs from Cam Clay by {err} of the pressure scale at increments of {step} kappa")
    rec.close(2 * N(runs[0]["ls"].p_s_stack), N(cam["ls"].p_c_stack), rtol=0.5 * step, msg="preconsolidation is Cam Clay's")
    rec.nt(plastic > 0)
    rec.label("plastic" if plastic else "elastic")


@composite
def gen_steady(draw):
    m = draw_material(draw)
    m.update(lam=num(draw, 0.08, 0.25, 16), mode=pick(draw, "on", "friction", "volume", "off"))
    m["kap"] = m["lam"] * num(draw, 0.2, 0.45, 16)
    m["N"] = num(draw, 1.8, 3.5, 16)
    d = ref.dev(ref.symm(np.array(arr(draw, (NPT, 3, 3))))) + 1e-3 * np.diag([1.0, 1.0, -2.0])
    d = d / np.sqrt(np.sum(d ** 2, axis=(1, 2)))[:, None, None]
    return dict(material=m, amp=0.04 * m["kap"], p=(m["p_ref"] * np.exp(np.array(arr(draw, (NPT,), 3.0, 6.0)))).tolist(), ocr=(1 + 2.0 * np.array(arr(draw, (NPT,), 0.0, 1.0))).tolist(), qf=[0.0] * NPT, dir=d.tolist())


@eqx.filter_jit
def sheared(law, mp, ls, dt, n):
    def one(c, _):
        return law.update(c[0], c[1], dt), None
    return jax.lax.scan(one, (mp, ls), None, length=n)[0]


@part(gen_steady, quick=24, thorough=400, shards=3)
def steady_state(case, rec):
    """sustained shear at constant volume ends at the inertial steady state: friction of the inertial number, volume on the steady line"""
    m = case["material"]
    kw = parameters(m, case["amp"])
    dt = 1.0 / m["rate"]
    law, ls, stress, rho, p, ocr, q = begin(case, kw)
    L = np.array(case["dir"]) * case["amp"] / dt
    mp = mccpaths.mk(stress, L, rho, np.ones(NPT))
    mp, ls = sheared(law, mp, ls, FT(dt), 3000)
    s, ps, I = N(mp.stress_stack), N(ls.p_s_stack), N(ls.I_p_stack)
    rec.finite(s, "stress after sustained shear")
    p1, q1 = ref.pressure(s), ref.qvm(s)
    rec.close(p1, ps, rtol=5e-3, msg="steady pressure is the critical pressure")
    rec.close(q1 / p1, friction(kw, I), rtol=5e-3, msg="steady friction")
    rec.close(np.log(m["rho_p"] / rho), np.log(gamma_of(m)) + m["lam"] * np.log(m["p_ref"] / p1) + I / kw.get("I_v", 1e20), rtol=0, atol=3e-3 * m["lam"], msg="steady volume")
    rec.close(ref.dev(s) / q1[:, None, None], np.array(case["dir"]) / np.sqrt(1.5), rtol=0, atol=5e-3, msg="steady flow direction")
    rate = np.sqrt(2 / 3) * case["amp"] / dt
    rec.close(I, rate * m["d"] * np.sqrt(m["rho_p"] / np.maximum(ps, m["p_ref"])), rtol=2e-2, msg="steady inertial number")
    rec.nt(True)
    rec.label(m["mode"])
