"""C26: generated particles fill the shape and nothing else."""
from hydraxmpm.utils.generate_body import generate_particles_in_sdf

from lib.pbt import part, PARTS
from lib.gen import *
from lib.mpm import *
import checks.c20 as shapes

for _name in ("shapes", "shapes32", "cloud", "sampled"):
    PARTS.pop(_name, None)

RULE = ("A case is a shape with sizes, place and rotation, a bounding box that covers it or cuts it, a cell size and a number of points per cell "
        "(or a number of samples and a key). Non-trivial: some candidate points are inside the shape and some outside.")
KINDS = [(k, d) for k, d in shapes.SHAPES if k != "domain"]
N_CELLS = {2: [[4, 5], [7, 7], [3, 9]], 3: [[3, 4, 3], [4, 4, 4]]}


def draw_case(draw):
    kind, dim = pick(draw, *share(KINDS))
    s = shapes.draw_shape(draw, kind, dim)
    c = s["scale"]
    case = dict(shape=s, dim=dim, com=(c * np.array(arr(draw, (dim,), -5, 5))).tolist(), angle=num(draw, -7, 7) if dim == 2 else arr(draw, (4,), -1, 1),
                given=pick(draw, "state", "centre and rotation", "centre", "bounds"))
    case["cells"] = pick(draw, *N_CELLS[dim])
    case["ppc"] = pick(draw, 1, 4, 9, 2, 5) if dim == 2 else pick(draw, 1, 8, 3)
    case["cell"] = c * num(draw, 0.15, 0.8, 64)
    case["shift"] = arr(draw, (dim,), -0.6, 0.6)
    case["aligned"] = boolean(draw)
    return case


@composite
def gen_regular(draw):
    return draw_case(draw)


def place(case):
    """bounds, world centre and rotation matrix"""
    dim = case["dim"]
    h = case["cell"]
    size = h * np.array(case["cells"])
    lo = np.array(case["com"]) + size * (np.array(case["shift"]) - 0.5)
    if case["aligned"]:
        lo = np.round(lo / h) * h
    hi = lo + size
    R = shapes.rotation(case, dim)
    com = np.array(case["com"])
    if case["given"] == "bounds":
        com = 0.5 * (lo + hi)
    if case["given"] in ("centre", "bounds"):
        R = np.eye(dim)
    return lo, hi, com, R


def kwargs(case, logic, lo, hi, com):
    dim = case["dim"]
    kw = dict(sdf_obj=logic, bounds_min=A(lo), bounds_max=A(hi))
    rot = A(case["angle"]) if dim == 2 else A(shapes.quaternion(case["angle"]))
    if case["given"] == "state":
        kw["sdf_state"] = logic.create_state(A(com), rotation=rot, velocity=A(np.ones(dim)))
    elif case["given"] == "centre and rotation":
        kw.update(center_of_mass=A(com), rotation=rot)
    elif case["given"] == "centre":
        kw.update(center_of_mass=A(com))
    return kw


def regular_of(case, rec):
    dim, s = case["dim"], case["shape"]
    lo, hi, com, R = place(case)
    h = case["cell"]
    n = next(k for k in range(1, 99) if k ** dim >= case["ppc"])     # rounded up to a full lattice
    step = h / n
    with quiet():
        logic = shapes.build(s)
        got = N(generate_particles_in_sdf(mode="regular", cell_size=h, ppc=case["ppc"], **kwargs(case, logic, lo, hi, com)))
    rec.check(got.ndim == 2 and got.shape[1] == dim, "shape of the result")
    rec.finite(got, "points")
    eps = (1e-9 if X64 else 5e-6) * (np.abs(lo).max() + np.abs(hi).max() + s["scale"]) + 6e-6
    # on the lattice, each point once
    k = got / step - 0.5
    ki = np.round(k).astype(int)
    rec.close((ki + 0.5) * step, got, rtol=0, atol=eps, msg="points off the lattice of the grid")
    rec.check(len({tuple(q) for q in ki}) == len(ki), "a point was generated twice")
    d = shapes.local(s, (got - com) @ R)
    rec.le(d, eps, msg="generated point outside the shape")
    # every lattice point within the bounds and inside the shape is there
    rng = [np.arange(np.floor(a / step) - 1, np.ceil(b / step) + 2) for a, b in zip(lo, hi)]
    L = (np.stack(np.meshgrid(*rng, indexing="ij"), -1).reshape(-1, dim))
    x = (L + 0.5) * step
    keep = np.all((x > lo + eps) & (x < hi - eps), axis=1)
    dx = shapes.local(s, (x - com) @ R)
    have = {tuple(q) for q in ki}
    must = [tuple(q) for q in L[keep & (dx < -eps)].astype(int)]
    missing = [q for q in must if q not in have]
    rec.check(not missing, lambda: f"{len(missing)} of {len(must)} points inside the shape and the bounds are missing, e.g. at {(np.array(missing[0]) + 0.5) * step}")
    # no further out than the cells that the bounds touch
    rec.check(np.all(got > lo - h - eps) and np.all(got < hi + h + eps), "points beyond the cells of the bounds")
    # the particles' volume against the exact one
    r = step * np.sqrt(dim) / 2
    if s["kind"] in ("sphere", "box") and np.all(com - lo > s["scale"] * 1.8) and np.all(hi - com > s["scale"] * 1.8):
        V = len(got) * step ** dim
        if s["kind"] == "sphere":
            vol = lambda q: (np.pi * q ** 2 if dim == 2 else 4 / 3 * np.pi * q ** 3) if q > 0 else 0.0
            rec.check(vol(s["size"][0] - r) <= V * (1 + 1e-9) + 1e-12 and V <= vol(s["size"][0] + r) * (1 + 1e-9), "volume of the particles")
        else:
            a = np.array(s["size"])
            rec.check(np.prod(np.maximum(a - 2 * r, 0)) <= V * (1 + 1e-9) + 1e-12 and V <= np.prod(a + 2 * r) * (1 + 1e-9), "volume of the particles")
        rec.label("volume")
    rec.nt(len(must) > 0 and np.any(keep & (dx > eps)))
    rec.label(s["kind"] + str(dim), case["given"], f"ppc {case['ppc']}", "aligned" if case["aligned"] else "not aligned", *(["none inside"] * (len(got) == 0)))


@part(gen_regular, quick=140, thorough=20000, shards=5)
def regular(case, rec):
    """the regular lattice against enumeration of every lattice point and closest-point distances"""
    regular_of(case, rec)


@part(gen_regular, quick=40, thorough=3000, shards=2, x64=False)
def regular32(case, rec):
    """the same in the default single precision"""
    regular_of(case, rec)


@composite
def gen_random(draw):
    case = draw_case(draw)
    case.update(n=pick(draw, 64, 500), key=integer(draw, 0, 10 ** 6))
    if boolean(draw):
        case["given"] = pick(draw, "bounds", "state")
    return case


@part(gen_random, quick=110, thorough=10000, shards=4)
def random(case, rec):
    """the random sample: the same for the same key, exactly its inside part, uniform over the bounds"""
    dim, s = case["dim"], case["shape"]
    lo, hi, com, R = place(case)
    key = jax.random.PRNGKey(case["key"])
    with quiet():
        logic = shapes.build(s)
        kw = kwargs(case, logic, lo, hi, com)
        got = N(generate_particles_in_sdf(mode="random", num_particles=case["n"], key=key, **kw))
        again = N(generate_particles_in_sdf(mode="random", num_particles=case["n"], key=key, **kw))
        big = hdx.SphereSDF(float(1e3 * (np.abs(lo).max() + np.abs(hi).max() + 1)))
        every = N(generate_particles_in_sdf(mode="random", num_particles=case["n"], key=key, sdf_obj=big, bounds_min=A(lo), bounds_max=A(hi)))
        other = N(generate_particles_in_sdf(mode="random", num_particles=case["n"], key=jax.random.PRNGKey(case["key"] + 1), sdf_obj=big, bounds_min=A(lo), bounds_max=A(hi)))
    rec.same(again, got, "a second call with the same key")
    rec.check(every.shape == (case["n"], dim), "size of the sample")
    rec.check(not np.allclose(every, other), "different keys gave the same sample")
    rec.check(np.all(every >= lo - 1e-12) and np.all(every <= hi + 1e-12), "sample outside the bounds")
    z = (every - lo) / (hi - lo)
    rec.le(np.abs(z.mean(0) - 0.5), 6 * np.sqrt(1 / 12 / case["n"]), msg="mean of the sample")
    rec.le(np.abs(z.var(0) - 1 / 12), 6 * np.sqrt(1 / 180 / case["n"]), msg="variance of the sample")
    d = shapes.local(s, (every - com) @ R)
    eps = 1e-9 * (np.abs(lo).max() + np.abs(hi).max() + s["scale"]) + 6e-6
    sure_in = every[d < -eps]
    maybe = every[np.abs(d) <= eps]
    pool_ = {tuple(q) for q in every[d <= eps]}
    rows = [tuple(q) for q in got]
    rec.check(all(q in pool_ for q in rows), "kept a point that is not an inside point of the sample")
    rec.check(len(set(rows)) == len(rows), "kept a point twice")
    rec.check({tuple(q) for q in sure_in} <= set(rows), "dropped an inside point of the sample")
    rec.nt(0 < len(rows) < case["n"])
    rec.label(s["kind"] + str(dim), case["given"], *(["near the surface"] * bool(len(maybe))))
