"""C17: the suggested time step respects the wave and particle speeds."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a law with generated moduli and 1-6 particles of arbitrary density and velocity, a cell size and a safety "
        "factor. Non-trivial: particles differ in density or speed.")
LAWS = ("elastic", "fluid", "mui", "dp")


@composite
def gen(draw):
    name = pick(draw, *LAWS)
    dim = pick(draw, 2, 3)
    n = pick(draw, 1, 4, 6)
    K = lognum(draw, 1e2, 1e10, 64)
    nu = pick(draw, 0.3, 0.0, 0.49, num(draw, 0, 0.49))
    law = dict(elastic=dict(E=K, nu=nu), fluid=dict(K=K, beta=pick(draw, 7.0, 1.0, num(draw, 1, 8)), viscosity=0.1),
               mui=dict(K=K), dp=dict(K=K, nu=nu))[name]
    sp = pick(draw, 1.0, 0.0, 1e3, 1e5)
    return dict(name=name, law=law, dim=dim, rho=(10.0 ** (np.array(arr(draw, (n,), 0.0, 1.0)) * 3 + 1)).tolist(), vol=arr(draw, (n,), 1e-4, 10.0),
                vel=(np.array(arr(draw, (n, dim))) * sp).tolist(), h=lognum(draw, 1e-4, 10, 32), alpha=pick(draw, 0.5, 0.1, 1.0, num(draw, 0.01, 1)),
                k=num(draw, 0.01, 100), i=integer(draw, 0, n - 1), default=boolean(draw), vol0=pick(draw, 1.0, 0.5, 2.0))


def wave(name, f, rho):
    if name == "elastic":
        M = f["E"] * (1 - f["nu"]) / ((1 + f["nu"]) * (1 - 2 * f["nu"]))
    elif name == "fluid":
        M = f["K"] * f["beta"]
    elif name == "mui":
        M = f["K"]
    else:
        M = 3 * f["K"] * (1 - f["nu"]) / (1 + f["nu"])
    return np.sqrt(M / rho)


def suggest(case, **over):
    c = dict(case, **over)
    law = make_law(c["name"], **c["law"])
    rho, vol = np.array(c["rho"]), np.array(c["vol"])
    mp = make_mp(len(rho), vel=c["vel"], pos=np.zeros((len(rho), c["dim"])), mass=rho * vol, vol=vol, vol0=vol * c["vol0"])
    kw = {} if c["default"] else dict(alpha=c["alpha"])
    return float(law.get_dt_crit(mp, c["h"], **kw))


@part(gen, quick=500, thorough=20000, shards=5)
def critical_step(case, rec):
    """value from wave and particle speed; scaling, monotony, dependence on the worst particle only"""
    rho, vel = np.array(case["rho"]), np.array(case["vel"])
    a = 0.5 if case["default"] else case["alpha"]
    c = wave(case["name"], case["law"], rho) if case["name"] != "mui" else wave("mui", case["law"], rho)
    sig = c + np.linalg.norm(vel, axis=1)
    dt = suggest(case)
    want = a * case["h"] / sig.max()
    rec.close(dt, want, rtol=1e-7, msg="critical step")
    rec.check(dt > 0, "not positive")
    k = case["k"]
    rec.close(suggest(case, h=case["h"] * k), dt * k, rtol=1e-7, msg="scaling with the cell size")
    if not case["default"]:
        rec.close(suggest(case, alpha=a * 0.5), dt * 0.5, rtol=1e-7, msg="scaling with the safety factor")
    faster = vel.copy()
    faster[case["i"]] *= 1 + k
    rec.check(suggest(case, vel=faster.tolist()) <= dt * (1 + 1e-9), "grows when a particle gets faster")
    stiff = dict(case["law"])
    key = "E" if case["name"] == "elastic" else "K"
    stiff[key] *= 1 + k
    rec.check(suggest(case, law=stiff) <= dt * (1 + 1e-9), "grows when the material gets stiffer")
    w = int(np.argmax(sig))
    one = dict(rho=[case["rho"][w]], vol=[case["vol"][w]], vel=[case["vel"][w]])
    rec.close(suggest(case, **one), dt, rtol=1e-9, msg="most restrictive particle alone")
    # volume at fixed density is irrelevant
    rec.close(suggest(case, vol=(np.array(case["vol"]) * 3).tolist()), dt, rtol=1e-9, msg="independent of particle size")
    rec.nt(len(rho) > 1 or np.abs(vel).max() > 0)
    rec.label(case["name"], f"{case['dim']}d", "speed bound" if np.linalg.norm(vel[w]) > c[w] else "wave bound")
