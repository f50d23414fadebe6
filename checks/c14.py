"""C14: Drucker-Prager stress stays admissible and returns correctly."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a Drucker-Prager material (friction, cohesion, dilatancy, hardening) and four particles driven 1-6 "
        "increments from an isotropic stress, densities around the reference. Non-trivial: some increment is plastic.")
ASSUMPTIONS = ["the trial state rotates the elastic strain with the first-order Jaumann correction the law documents"]
NPT = 4


def draw_dp(draw):
    return dict(K=lognum(draw, 1e3, 1e8, 64), nu=pick(draw, 0.3, 0.0, 0.45, num(draw, 0, 0.48)), mu_1=pick(draw, 0.5, 0.1, 1.2, num(draw, 0.02, 1.5)),
                mu_2=pick(draw, 0.0, 0.6, 1.5), c0=pick(draw, 0.0, lognum(draw, 1.0, 1e4, 32)), mu_1_hat=pick(draw, 0.0, 0.1, 0.5, num(draw, 0, 1)),
                H=pick(draw, 0.0, lognum(draw, 1.0, 1e5, 32)), rho_0=900.0)


@composite
def gen(draw):
    f = draw_dp(draw)
    k = integer(draw, 1, 6)
    amp = pick(draw, 1e-3, 1e-5, 1e-2)
    L = np.array(arr(draw, (k, NPT, 3, 3)))
    mode = pick(draw, "mixed", "shear", "extend", "compress")
    if mode == "shear":
        L = ref.dev(L)
    elif mode == "extend":
        L = 0.4 * L - 0.8 * np.eye(3)
    elif mode == "compress":
        L = L + 0.5 * np.eye(3)
    rho = 900 * (0.985 + 0.2 * np.array(arr(draw, (k, NPT), 0.0, 1.0)))
    return dict(law=f, p0=(np.array(arr(draw, (NPT,), 0.0, 1.0)) * pick(draw, 1.0, 0.01, 0.0) * f["K"] * 1e-3).tolist(), L=(L * amp).tolist(),
                rho=rho.tolist(), dt=pick(draw, 1.0, 0.1), acc=(np.array(arr(draw, (NPT,), 0.0, 1.0)) * pick(draw, 0.01, 2.0)).tolist(), spin=boolean(draw))


@part(gen, quick=1200, thorough=40000, shards=5)
def return_mapping(case, rec):
    """yield admissibility and the optimality conditions of the return at every increment of a path"""
    f, dt = case["law"], case["dt"]
    law = make_law("dp", **f)
    K, nu = f["K"], f["nu"]
    G = 3 * K * (1 - 2 * nu) / (2 * (1 + nu))
    rec.close(law.G, G, rtol=1e-10, msg="shear modulus")
    p0 = np.array(case["p0"])
    mp = make_mp(NPT, stress=p0[:, None, None] * np.eye(3))
    ls = law.create_state(mp.stress_stack)
    rec.close(ls.p_0_stack, p0, rtol=1e-12, scale=K * 1e-6, msg="initial pressure")
    ls = eqx.tree_at(lambda t: t.eps_p_acc_stack, ls, A(case["acc"]))
    plastic = False
    for L, rho in zip(np.array(case["L"]), np.array(case["rho"])):
        if not case["spin"]:
            L = ref.symm(L)
        e0, a0 = N(ls.eps_e_stack), N(ls.eps_p_acc_stack)
        mp = set_mp(mp, L=L, mass=rho, vol=np.ones(NPT))
        mp, ls = law_update(law, mp, ls, dt)
        s, e, a = N(mp.stress_stack), N(ls.eps_e_stack), N(ls.eps_p_acc_stack)
        rec.finite(s, "stress")
        W = -ref.skew(L) * dt
        tr = e0 + W @ e0 - e0 @ W + ref.symm(L) * dt
        p_tr = K * np.trace(tr, axis1=1, axis2=2) + p0
        s_tr = 2 * G * ref.dev(tr)
        q_tr, q = np.sqrt(ref.j2(s_tr)), np.sqrt(ref.j2(s))
        p = ref.pressure(s)
        c0, c1 = f["c0"] + f["H"] * a0, f["c0"] + f["H"] * a
        for i in range(NPT):
            if abs(rho[i] - f["rho_0"]) < 1e-6:
                continue
            if rho[i] < f["rho_0"]:
                rec.check(np.all(s[i] == 0), "a particle below the reference density carries stress")
                rec.check(np.all(e[i] == 0), "a disconnected particle keeps elastic strain")
                rec.close(a[i], a0[i], msg="plastic strain of a disconnected particle")
                rec.label("disconnected")
                continue
            sc = abs(p_tr[i]) + q_tr[i] + f["mu_2"] * c0[i] + 1e-9 * K
            t = 1e-8 * sc + 4e-6
            rec.le(q[i], f["mu_1"] * p[i] + f["mu_2"] * c1[i], "outside the yield cone", tol=t)
            rec.check(a[i] >= a0[i] - 1e-15, "accumulated plastic strain decreased")
            rec.close(p[i], K * np.trace(e[i]) + p0[i], rtol=1e-8, scale=sc, msg="elastic volume strain")
            rec.close(ref.dev(s[i]), 2 * G * ref.dev(e[i]), rtol=1e-8, scale=sc, msg="elastic deviator")
            yf = q_tr[i] - f["mu_1"] * p_tr[i] - f["mu_2"] * c0[i]
            if abs(yf) <= t:
                rec.label("on the surface")
                continue
            if yf < 0:
                rec.close(s[i], s_tr[i] + p_tr[i] * np.eye(3), rtol=1e-9, scale=sc, msg="elastic prediction")
                rec.close(a[i], a0[i], msg="plastic strain in an elastic step")
                rec.label("elastic")
                continue
            plastic = True
            dg_max = q_tr[i] / G            # largest multiplier a cone return can have
            cone = (G + K * f["mu_1"] * f["mu_1_hat"] + f["H"] * f["mu_2"] ** 2) * dg_max - yf
            if abs(cone) < 1e-6 * sc + 1e-5:
                rec.label("at the edge of the cone")
                continue
            rec.close(q[i] - f["mu_1"] * p[i] - f["mu_2"] * c1[i], 0.0, atol=t, msg="on the cone after return")
            if cone > 0:
                dg = (q_tr[i] - q[i]) / G
                rec.check(dg > 0, "negative plastic multiplier")
                rec.close(s[i] - p[i] * np.eye(3), s_tr[i] * (q[i] / q_tr[i]), rtol=1e-8, scale=sc, msg="direction of the deviator")
                rec.close(p[i], p_tr[i] + K * dg * f["mu_1_hat"], rtol=1e-8, scale=sc * (1 + K / G), msg="plastic volume change")
                rec.close((a[i] - a0[i]) * G, f["mu_2"] * dg * G, rtol=1e-8, scale=sc, msg="plastic strain on the cone")
                rec.label("cone dilatant" if f["mu_1_hat"] else "cone")
            else:
                rec.close(q[i], 0.0, atol=t, msg="deviator at the apex")
                rec.close((a[i] - a0[i]) * K, f["mu_2"] / f["mu_1"] * (p[i] - p_tr[i]), rtol=1e-8, scale=sc * (1 + f["mu_2"] / f["mu_1"]), msg="plastic strain at the apex")
                rec.label("apex")
    rec.nt(plastic)
    rec.label("hardening" if f["H"] and f["mu_2"] else "perfect", "cohesive" if f["c0"] and f["mu_2"] else "frictional")
