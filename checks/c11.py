"""C11: linear elasticity obeys Hooke's law incrementally."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a set of moduli and four particles with arbitrary stress driven along 1-5 arbitrary velocity "
        "gradients. Non-trivial: some strain increment and the modulus are not zero.")
NPT = 4


def draw_moduli(draw):
    return lognum(draw, 1.0, 1e9), pick(draw, 0.3, 0.0, 0.49, -0.3, num(draw, -0.9, 0.495))


def moduli(E, nu):
    """Bulk, shear, Lame from the compliance matrix (inverted numerically)."""
    C = np.array([[1, -nu, -nu], [-nu, 1, -nu], [-nu, -nu, 1]]) / E
    S = np.linalg.inv(C)
    lam, lam2g = S[0, 1], S[0, 0]
    return (lam2g + 2 * lam) / 3, (lam2g - lam) / 2, lam


@composite
def gen(draw):
    E, nu = draw_moduli(draw)
    k = integer(draw, 1, 5)
    return dict(E=E, nu=nu, stress=(sym(arr(draw, (NPT, 3, 3))) * lognum(draw, 1e-2, 1e7, 32)).tolist(),
                L=(np.array(arr(draw, (k, NPT, 3, 3))) * lognum(draw, 1e-3, 1e2, 16)).tolist(), dt=lognum(draw, 1e-6, 1e-1, 16),
                dim=pick(draw, 2, 3))


def run_path(law, ls, mp, Ls, dt):
    out = []
    for L in Ls:
        mp, ls = law_update(law, set_mp(mp, L=L), ls, dt)
        out.append(N(mp.stress_stack))
    return out, mp, ls


@part(gen, quick=900, thorough=40000, shards=4)
def hooke(case, rec):
    """stress increment = lambda tr(de) I + 2 G de; moduli; additivity, reversal, spin, untouched fields"""
    E, nu, dt = case["E"], case["nu"], case["dt"]
    K, G, lam = moduli(E, nu)
    law = make_law("elastic", E=E, nu=nu)
    msc = abs(K) + abs(G)
    rec.close(law.K, K, rtol=1e-9, scale=msc, msg="bulk modulus")
    rec.close(law.G, G, rtol=1e-9, scale=msc, msg="shear modulus")
    rec.close(law.lam, lam, rtol=1e-9, scale=msc, msg="Lame modulus")
    s0 = np.array(case["stress"])
    Ls = np.array(case["L"])
    mp = make_mp(NPT, dim=case["dim"], stress=s0)
    ls = law.create_state(material_points=mp)
    out, mp1, ls1 = run_path(law, ls, mp, Ls, dt)
    cur, scale = s0, np.abs(s0).max() + msc * np.abs(Ls).max() * dt
    for k, L in enumerate(Ls):
        de = ref.symm(L) * dt
        cur = cur + lam * np.trace(de, axis1=1, axis2=2)[:, None, None] * np.eye(3) + 2 * G * de
        rec.close(out[k], cur, rtol=1e-9, scale=scale + 1e-30, msg="Hooke increment")
    for f in ("position_stack", "velocity_stack", "mass_stack", "volume_stack", "volume0_stack", "F_stack", "force_stack"):
        rec.same(getattr(mp1, f), getattr(mp, f), f + " changed by the law")
    rec.same(ls1.stress_ref_stack, ls.stress_ref_stack, "reference stress changed")
    # one summed increment, reversed order, closed cycle, spin removed
    tot, _, _ = run_path(law, ls, mp, [Ls.sum(0)], dt)
    rec.close(tot[-1], out[-1], rtol=1e-9, scale=scale * len(Ls) + 1e-30, msg="additivity")
    rev, _, _ = run_path(law, ls, mp, list(Ls[::-1]), dt)
    rec.close(rev[-1], out[-1], rtol=1e-9, scale=scale * len(Ls) + 1e-30, msg="path independence")
    back, _, _ = run_path(law, ls1, mp1, list(-Ls), dt)
    rec.close(back[-1], s0, rtol=1e-9, scale=scale * len(Ls) + 1e-30, msg="closed cycle")
    spin, _, _ = run_path(law, ls, mp, list(Ls - 2 * ref.skew(Ls)), dt)
    rec.close(spin[-1], out[-1], rtol=1e-9, scale=scale * len(Ls) + 1e-30, msg="spin")
    rec.nt(np.abs(ref.symm(Ls)).max() > 0)
    rec.label("nu<0" if nu < 0 else "nu>=0", f"{len(Ls)} increments")


@composite
def gen_state(draw):
    return dict(n=pick(draw, 1, 4), stress=sym(arr(draw, (4, 3, 3))).tolist(), via=pick(draw, "points", "density", "stress"))


@part(gen_state, quick=60, thorough=1000)
def states(case, rec):
    """state creation keeps one entry per particle, whatever it is made from, and updates run from it"""
    n = case["n"]
    s = np.array(case["stress"])[:n]
    law = make_law("elastic")
    mp = make_mp(n, stress=s)
    ls = dict(points=lambda: law.create_state(material_points=mp), density=lambda: law.create_state(density_stack=jnp.ones(n)),
              stress=lambda: law.create_state(stress_ref_stack=A(s)))[case["via"]]()
    want = np.zeros((n, 3, 3)) if case["via"] == "density" else s
    rec.close(ls.stress_ref_stack, want, msg="reference stress")
    mp1, _ = law_update(law, mp, ls, 1e-3)
    rec.close(mp1.stress_stack, s, rtol=1e-12, scale=1.0, msg="stress without strain")
    rec.nt(np.abs(s).max() > 0)
    rec.label(case["via"], f"n{n}")
