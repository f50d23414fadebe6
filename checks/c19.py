"""C19: triaxial tests honour their control mode along the whole path."""
import jax

from lib.pbt import part, Violation
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a triaxial test (drained, constant-pressure or undrained; scalar or per-step axial rate and time step; "
        "stride and static start) on one particle of Cam Clay, Drucker-Prager or linear elastic material with drawn parameters, "
        "confinement and over-consolidation. Non-trivial: the axial rate is not zero.")
ASSUMPTIONS = ["moderate increments (axial strain per step up to 0.03 kappa for Cam Clay), for which the damped Newton control converges",
               "the stride divides the number of steps"]

THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
POOL = pool(70 if THOROUGH else 14, seed=19, law=["mcc", "dp", "elastic", "mcc"], mode=["drained", "undrained", "pconst", "drained"], n=[24, 40],
            stride=[1, 1, 4, 8], static=[False, True], arrays=[False, True])

_run = eqx.filter_jit(lambda t, mp, ls: t.run(mp, ls))


def draw_law(draw, name):
    if name == "mcc":
        lam = lognum(draw, 0.02, 0.2, 16)
        return dict(nu=num(draw, 0.1, 0.4, 12), M=num(draw, 0.7, 1.5, 16), lam=lam, kap=lam * num(draw, 0.1, 0.35, 10), N=num(draw, 1.5, 3.0, 15), p_ref=1000.0)
    if name == "dp":
        return dict(K=lognum(draw, 1e5, 1e7, 16), nu=num(draw, 0.1, 0.4, 12), mu_1=num(draw, 0.3, 0.9, 12), c0=pick(draw, 0.0, 50.0),
                    mu_1_hat=pick(draw, 0.0, 0.1), mu_2=pick(draw, 0.0, 0.6))
    return dict(E=lognum(draw, 1e4, 1e8, 16), nu=num(draw, -0.2, 0.45, 13))


@composite
def gen(draw):
    c = pick(draw, *share(POOL))
    f = draw_law(draw, c["law"])
    amp = {"mcc": 0.03 * f.get("kap", 0), "dp": 0.02 * 1000 / f.get("K", 1), "elastic": 2e-3}[c["law"]]
    amp = amp * pick(draw, 1.0, 0.3) * pick(draw, 1, 1, -1)
    dt = pick(draw, 0.01, 1.0)
    case = dict(cfg=c, law=f, confine=lognum(draw, 3e3, 3e5, 16), ocr=pick(draw, 1.0, num(draw, 1.0, 4.0, 12)), rate=amp / dt, dt=dt)
    if c["law"] != "mcc":
        case["confine"] = lognum(draw, 500.0, 5e3, 16)
    if c["arrays"]:
        case["rates"] = (amp / dt * np.array(arr(draw, (c["n"],), 0.2, 1.0))).tolist()
        case["dts"] = (dt * np.array(arr(draw, (c["n"],), 0.5, 1.0))).tolist()
    return case


def initial(case):
    name = case["cfg"]["law"]
    law = make_law(name, **case["law"])
    if name == "mcc":
        with quiet():
            ls, stress, rho = law.create_state_from_ocr(A([case["confine"]]), A([case["ocr"]]))
        mp = make_mp(pos=[[0.0, 0.0, 0.0]], vol=[1.0], vol0=[1.0], mass=N(rho), stress=N(stress))
        return law, ls, mp
    mp = make_mp(pos=[[0.0, 0.0, 0.0]], vol=[1.0], vol0=[1.0], mass=[1000.0 if name == "elastic" else 2000.0], stress=[np.eye(3) * case["confine"]])
    ls, mp = law_state(name, law, mp)
    return law, ls, mp


def test_of(case, law, stride=None):
    c = case["cfg"]
    return hdx.TriaxialTest(
        solver=hdx.ElementTestDriver(arrayify(law)), confine=A(case["confine"]), is_undrained=c["mode"] == "undrained",
        is_p_constant=c["mode"] == "pconst", num_steps=c["n"], stride=stride or c["stride"], start_static=c["static"],
        axial_rate=A(case["rates"]) if c["arrays"] else A(case["rate"]), dt=A(case["dts"]) if c["arrays"] else A(case["dt"]))


@part(gen, quick=210, thorough=6000, shards=7)
def runs(case, rec):
    """control mode, axial rate, equal laterals, and the recorded states, at every recorded point"""
    c = case["cfg"]
    law, ls, mp = initial(case)
    test = test_of(case, law)
    traj, ltraj = _run(test, mp, ls)
    one, lone = (traj, ltraj) if c["stride"] == 1 else _run(test_of(case, law, 1), mp, ls)
    n = c["n"]
    rates = np.array(case["rates"]) if c["arrays"] else np.full(n, case["rate"])
    dts = np.array(case["dts"]) if c["arrays"] else np.full(n, case["dt"])
    if c["static"]:
        live = np.arange(n) > 0
    else:
        live = np.ones(n, bool)
    strain = np.cumsum(np.where(live, rates * dts, 0.0))
    Ls, Fs, S, V = N(one.L_stack), N(one.F_stack), N(one.stress_stack), N(one.volume_stack)
    rec.check(Ls.shape == (n, 3, 3) and V.shape == (n,), f"recorded shapes {Ls.shape} {V.shape}")
    rec.finite(S, "stress")
    q, p = ref.qvm(S), ref.pressure(S)
    if np.any(p < 30.0) and c["law"] != "elastic":
        rec.label("near zero pressure")
        return
    # axial rate and equal lateral directions, nothing else
    want = np.where(live, rates, 0.0)
    rsc = np.abs(rates).max()
    rec.close(Ls[:, 2, 2], want, rtol=1e-12, scale=rsc, msg="axial rate")
    rec.close(Ls[:, 1, 1], Ls[:, 0, 0], rtol=1e-12, scale=rsc, msg="lateral rates")
    rec.close(Ls * (1 - np.eye(3)), np.zeros_like(Ls), rtol=1e-12, scale=rsc, msg="shear rates")
    rec.close(-np.log(Fs[:, 2, 2]), strain, rtol=1e-9, scale=np.abs(strain).max(), msg="axial strain")
    rec.close(S[:, 1, 1], S[:, 0, 0], rtol=1e-9, scale=case["confine"], msg="lateral stresses")
    # control
    if c["mode"] == "undrained":
        rec.close(V, np.ones(n), rtol=1e-10, msg="undrained volume")
        rec.close(Ls[:, 0, 0], -0.5 * want, rtol=1e-12, scale=rsc, msg="undrained lateral rate")
    elif c["mode"] == "drained":
        rec.close(S[live][:, 0, 0], np.full(live.sum(), case["confine"]), rtol=1e-5, msg="drained lateral stress")
    else:
        rec.close(p[live], np.full(live.sum(), case["confine"]), rtol=1e-5, msg="constant pressure")
    # stepping the law along the recorded velocity gradients
    cur, cls = mp, ls
    F = np.eye(3)
    for k in range(n):
        if live[k]:
            F = ref.expm(-Ls[k] * dts[k]) @ F
            cur, cls = law_update(law, set_mp(cur, L=Ls[k:k + 1], F=F[None]), cls, dts[k])
            cur = set_mp(cur, vol=[np.linalg.det(F)])
        rec.close(S[k], N(cur.stress_stack)[0], rtol=1e-8, scale=case["confine"] + np.abs(S[k]).max(), msg="stress along the recorded path")
        rec.close(Fs[k], F, rtol=1e-9, msg="deformation along the recorded path")
        rec.close(V[k], np.linalg.det(F), rtol=1e-9, msg="volume along the recorded path")
    flat = lambda t: [np.squeeze(np.asarray(x)) for x in jax.tree_util.tree_leaves(t)]
    last = jax.tree_util.tree_map(lambda x: x[-1], lone)
    for a, b in zip(flat(last), flat(cls)):
        rec.close(a, b, rtol=1e-8, scale=np.abs(b).max() + 1e-9, msg="law state along the recorded path")
    # strides
    if c["stride"] > 1:
        at = np.arange(1, n // c["stride"] + 1) * c["stride"] - 1
        for a, b in zip(jax.tree_util.tree_leaves((traj, ltraj)), jax.tree_util.tree_leaves((one, lone))):
            b = np.asarray(b)[at]
            rec.close(a, b, rtol=1e-7, scale=np.abs(b).max() + 1e-9, msg="stride")
    if c["law"] == "mcc":
        pc = N(lone.p_c_stack).reshape(n)
        f = (q / case["law"]["M"]) ** 2 + p ** 2 - pc * p
        rec.le(f, 0.0, "outside the yield surface", tol=1e-4 * case["confine"] ** 2 * case["ocr"] ** 2 + 1e-4 * pc.max() ** 2)
    # reported axial strains
    with quiet():
        rep = N(test.axial_strain_stack)
    at = np.arange(1, n // c["stride"] + 1) * c["stride"] - 1
    ok = rep.shape == (len(at),) and np.allclose(rep, strain[at], rtol=1e-9, atol=1e-12 * np.abs(strain).max())
    rec.nt()
    rec.label(c["law"], c["mode"], f"stride {c['stride']}", "static" if c["static"] else "moving", "arrays" if c["arrays"] else "scalar")
    if not ok:
        lag = np.cumsum(rates * dts)[:: c["stride"]] if c["arrays"] else np.linspace(0, case["rate"] * case["dt"] * n, n)[:: c["stride"]]
        known = rep.shape == lag.shape and np.allclose(rep, lag, rtol=1e-9, atol=1e-12 * np.abs(strain).max())
        raise Violation(f"axial_strain_stack reports {rep[:3]}... at the recorded points, the strains are {strain[at][:3]}...",
                        key="axial_strain_stack is not aligned with the recorded states" if known else None)


@composite
def gen_long(draw):
    f = draw_law(draw, "mcc")
    return dict(law=f, confine=lognum(draw, 3e3, 3e5, 16), ocr=pick(draw, 1.0, num(draw, 1.0, 2.5, 12)), mode=pick(draw, "drained", "undrained", "pconst"))


@part(gen_long, quick=24, thorough=400, shards=6)
def critical(case, rec):
    """Cam Clay runs end at the critical state stress ratio on the critical state line"""
    f = case["law"]
    n = 3000
    # shear strain to the critical state scales with lambda - kappa; increments with kappa
    step_ = 0.03 * f["kap"]
    case = dict(case, cfg=dict(law="mcc", mode=case["mode"], n=n, stride=100, static=False, arrays=False), rate=step_, dt=1.0)
    law, ls, mp = initial(case)
    traj, lt = _run(test_of(case, law), mp, ls)
    S, V = N(traj.stress_stack), N(traj.volume_stack)
    q, p = ref.qvm(S), ref.pressure(S)
    if n * step_ < 6 * (f["lam"]):
        rec.label("short")
        return
    rec.close(q[-1] / p[-1], f["M"], rtol=0.03, msg="critical state stress ratio")
    eta = q / p
    if case["ocr"] < 1.9:
        rec.le(eta, f["M"] * 1.002, "stress ratio of a wet path beyond the critical state")
    lnv = np.log(f["rho_p"] if "rho_p" in f else 2650.0) - np.log(float(N(mp.mass_stack)[0]) / V[-1])
    csl = np.log(f["N"]) - (f["lam"] - f["kap"]) * np.log(2) + f["lam"] * np.log(f["p_ref"] / p[-1])
    rec.close(lnv, csl, rtol=0, atol=0.02 * f["lam"] + 2e-3, msg="critical state line")
    rec.nt()
    rec.label("critical " + case["mode"])
