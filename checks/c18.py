"""C18: the element driver imposes exactly the prescribed deformation."""
import jax

from lib.pbt import part, Violation
from lib.gen import *
from lib.mpm import *

RULE = ("A case drives 1-4 particles with arbitrary prior deformation, volume and stress through 1-6 driver steps of "
        "arbitrary velocity gradients, for every law. Non-trivial: some velocity gradient is not zero.")
ASSUMPTIONS = ["stress oracle: the law itself called on the prescribed velocity gradient (its own correctness is C09-C17)"]
LAWS = ["elastic", "fluid", "mui", "dp", "mcc"]
RHO = dict(elastic=1000.0, fluid=1000.0, mui=1600.0, dp=950.0, mcc=1000.0)

POOL = pool(21, seed=18, law=LAWS, n=[2, 1, 4], dim=[3, 2], mode=["default", "linear call", "exp call", "field", "field False"])

_drive = eqx.filter_jit(lambda d, mp, ls, L, dt: d.step(mp, ls, L, dt))
_drive_lin = eqx.filter_jit(lambda d, mp, ls, L, dt: d.step(mp, ls, L, dt, True))
_drive_exp = eqx.filter_jit(lambda d, mp, ls, L, dt: d.step(mp, ls, L, dt, False))


@composite
def gen(draw):
    c = pick(draw, *share(POOL))
    law, n = c["law"], c["n"]
    k = integer(draw, 1, 6)
    big = pick(draw, 0.01, 0.3, 1.0) if law in ("elastic", "fluid") else pick(draw, 1e-4, 5e-4)
    dt = pick(draw, 0.01, 1.0, 1e-3)
    L = np.array(arr(draw, (k, n, 3, 3))) * big / dt
    if pick(draw, False, False, True):   # commuting, triaxial-like
        L = L * np.eye(3)
    F = np.eye(3) + 0.2 * np.array(arr(draw, (n, 3, 3)))
    vol0 = np.array(arr(draw, (n,), 0.5, 2.0))
    case = dict(law=law, n=n, L=L.tolist(), dt=dt, F=F.tolist(), vol0=vol0.tolist(), dim=c["dim"], mode=c["mode"],
                mass=(RHO[law] * vol0 * np.linalg.det(F) * np.array(arr(draw, (n,), 0.9, 1.1))).tolist(),
                pos=arr(draw, (n, 3)), vel=arr(draw, (n, 3)))
    if law in ("elastic", "dp"):
        case["stress"] = (np.eye(3) * 500 + (sym(arr(draw, (n, 3, 3))) * 100 if law == "elastic" else 0) + np.zeros((n, 3, 3))).tolist()
    return case


@part(gen, quick=700, thorough=20000, shards=7)
def steps(case, rec):
    """deformation, volume, mass, position, stress and law state after every driver step"""
    dim, dt, n = case["dim"], case["dt"], case["n"]
    F = np.array(case["F"])
    vol0 = np.array(case["vol0"])
    law = make_law(case["law"])
    mp = make_mp(pos=np.array(case["pos"])[:, :dim], vel=np.array(case["vel"])[:, :dim], F=F, vol0=vol0,
                 vol=vol0 * np.linalg.det(F), mass=case["mass"], stress=case.get("stress"))
    ls, mp = law_state(case["law"], law, mp, **(dict(p0=2000.0) if case["law"] == "mcc" else {}))
    mode = case["mode"]
    kw = {"field": dict(is_F_linear_approx=True), "field False": dict(is_F_linear_approx=False)}.get(mode, {})
    driver = hdx.ElementTestDriver(arrayify(law), **kw)
    call = {"linear call": _drive_lin, "exp call": _drive_exp}.get(mode, _drive)
    linear = mode in ("linear call", "field")
    for L in np.array(case["L"]):
        inc = np.eye(3) - L * dt if linear else np.stack([ref.expm(-x * dt) for x in L])
        want = inc @ F
        new, ls1 = call(driver, mp, ls, A(L), A(dt))
        got = N(new.F_stack)
        if mode == "field" and np.abs(got - np.stack([ref.expm(-x * dt) for x in L]) @ F).max() < 1e-10 < np.abs(got - want).max():
            rec.nt()
            raise Violation("F advanced by the matrix exponential although the driver was configured with is_F_linear_approx=True",
                            key="driver ignores its is_F_linear_approx field")
        rec.close(got, want, rtol=1e-9, msg="deformation gradient")
        J = np.linalg.det(want)
        rec.close(new.volume_stack, J * vol0, rtol=1e-8, msg="volume", scale=np.abs(want).max() ** 3 * vol0.max())
        rec.same(new.mass_stack, mp.mass_stack, "mass")
        rec.same(new.position_stack, mp.position_stack, "position")
        rec.same(new.velocity_stack, mp.velocity_stack, "velocity")
        rec.same(new.volume0_stack, mp.volume0_stack, "reference volume")
        rec.same(new.L_stack, A(L), "velocity gradient")
        # oracle: the law on the prescribed L and F, with the volume before the step
        lm, ls2 = law_update(law, set_mp(mp, L=L, F=want), ls, dt)
        sc = np.abs(N(lm.stress_stack)).max() + np.abs(N(mp.stress_stack)).max() + 1.0
        if not np.all(np.isfinite(N(lm.stress_stack))) or np.abs(np.log(np.abs(J))).max() > 3 or np.any(J <= 0):
            rec.label("extreme")
            return
        rec.close(new.stress_stack, lm.stress_stack, rtol=1e-9, scale=sc, msg="stress")
        for a, b in zip(jax.tree_util.tree_leaves(ls1), jax.tree_util.tree_leaves(ls2)):
            rec.close(a, b, rtol=1e-9, scale=np.abs(N(b)).max() + 1e-9, msg="law state")
        mp, ls, F = new, ls1, want
    rec.close(N(mp.density_stack), np.array(N(mp.mass_stack)) / N(mp.volume_stack), rtol=1e-9, msg="density")
    rec.nt(np.abs(np.array(case["L"])).max() > 0)
    rec.label(case["law"], mode, f"n{n}", f"{dim}d")


@composite
def gen_const(draw):
    n = pick(draw, 2, 1)
    return dict(n=n, A=(np.array(arr(draw, (n, 3, 3))) * pick(draw, 0.3, 1.0)).tolist(), k=pick(draw, 7, 3, 16), F=(np.eye(3) + 0.2 * np.array(arr(draw, (n, 3, 3)))).tolist())


@part(gen_const, quick=150, thorough=4000, shards=1)
def subdivision(case, rec):
    """a constant velocity gradient over k steps gives the deformation of one long step"""
    L, F, k = np.array(case["A"]), np.array(case["F"]), case["k"]
    law = make_law("elastic")
    mp = make_mp(pos=np.zeros((case["n"], 3)), F=F, vol=np.ones(case["n"]), vol0=np.ones(case["n"]), mass=np.ones(case["n"]))
    ls, mp = law_state("elastic", law, mp)
    d = hdx.ElementTestDriver(arrayify(law))
    cur, ls1 = mp, ls
    for _ in range(k):
        cur, ls1 = _drive(d, cur, ls1, A(L), A(1.0 / k))
    rec.close(cur.F_stack, np.stack([ref.expm(-x) for x in L]) @ F, rtol=1e-9, msg="F after subdivided loading")
    one, _ = _drive(d, mp, ls, A(L), A(1.0))
    rec.close(cur.volume_stack, N(one.volume_stack), rtol=1e-8, scale=10.0, msg="volume after subdivided loading")
    rec.nt(np.abs(L).max() > 0)
