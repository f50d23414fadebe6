"""C02: particle-grid scatter and gather conserve and interpolate."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a kernel, grid, 1-9 particles with positive masses of very different size, and particle or grid "
        "data of rank 0-2. Non-trivial: at least two particles share a node (scatter) or the field varies (gather).")

PRESETS = {2: [([5, 5], 1.0), ([4, 8], 0.7), ([9, 5], 0.01)],
           3: [([5, 5, 5], 1.0), ([5, 4, 6], 0.3)]}


POOL = pool(63, seed=2, dim=[2, 3], kernel=list(KERNELS), preset=[0, 1, 2], rank=[0, 1, 2], n=[1, 2, 9], scalar_field=[False, True],
            cutoff=[1e-9, 1e-6, 0.05])


@composite
def gen(draw):
    c = pick(draw, *share(POOL))
    dim, kernel, rank, n = c["dim"], c["kernel"], c["rank"], c["n"]
    size, h = PRESETS[dim][c["preset"] % len(PRESETS[dim])]
    snap = pick(draw, 0, 2, 64)
    lo = 1.0 if kernel != "linear" else 0.0
    u = np.asarray(arr(draw, (n, dim), 0.0, 1.0))
    x = lo + u * (np.array(size) - 1 - 2 * lo)
    if snap:
        x = np.clip(np.round(x * snap) / snap, lo, np.array(size) - 1 - lo)
    shape = {0: (), 1: (dim,), 2: (3, 3)}[rank]
    return dict(kernel=kernel, size=size, h=h, origin=[num(draw, -3, 3, 12) for _ in range(dim)], x=x.tolist(),
                mass=[lognum(draw, 1e-3, 1e3) for _ in range(n)],
                data=arr(draw, (n,) + shape, -100, 100),
                field=arr(draw, (int(np.prod(size)),) + shape, -10, 10) if not c["scalar_field"] else arr(draw, (int(np.prod(size)),), -10, 10),
                lin=arr(draw, (dim + 1,), -5, 5, levels=33), cutoff=c["cutoff"])


@eqx.filter_jit
def compiled(m, pos, origin, size, inv, data, mass, field, cutoff):
    c = m.compute(pos, origin, size, inv)
    n = int(np.prod(size))
    return (m.scatter_to_grid(c, data, mass, n, normalize=False),
            m.scatter_to_grid(c, data, mass, n, small_mass_cutoff=cutoff),
            m.gather_from_grid(c, field))


@part(gen, quick=700, thorough=20000, shards=6)
def transfers(case, rec):
    """one compiled scatter (normalised and not) and gather against the dense weights"""
    dim, size, h = len(case["size"]), tuple(case["size"]), case["h"]
    m = hdx.ShapeFunctionMapping(shapefunction=case["kernel"], dim=dim)
    g = ref.Grid(case["origin"], h, size)
    pos = np.array(case["origin"]) + np.array(case["x"]) * h
    data, mass, field = np.array(case["data"]), np.array(case["mass"]), np.array(case["field"])
    raw, nrm, got = compiled(m, A(pos), A(case["origin"]), size, 1.0 / h, A(data), A(mass), A(field), case["cutoff"])
    W, _ = g.weights(case["kernel"], pos)
    P = len(pos)
    rawr = np.tensordot(W.T, data * mass.reshape((P,) + (1,) * (data.ndim - 1)), axes=(1, 0))
    scale = np.abs(data).max() * mass.max() + 1e-300
    rec.close(raw, rawr, rtol=1e-8, scale=scale, msg="scatter")
    tot = np.tensordot(mass, data, axes=(0, 0))
    rec.close(N(raw).sum(0), tot, rtol=1e-8, scale=scale * P, msg="scatter total")
    wm = W.T @ mass
    near = np.abs(wm - case["cutoff"]) < 1e-12 + 1e-9 * case["cutoff"]
    live = wm > case["cutoff"]
    nr = np.where(live.reshape((-1,) + (1,) * (data.ndim - 1)),
                  rawr / np.where(live, wm, 1).reshape((-1,) + (1,) * (data.ndim - 1)), 0.0)
    rec.close(N(nrm)[~near], nr[~near], rtol=1e-6, scale=np.abs(data).max() + 1e-300, msg="normalised scatter")
    rec.close(got, np.tensordot(W, field, axes=(1, 0)), rtol=1e-8, scale=np.abs(field).max() + 1e-300, msg="gather")
    # transpose: <scatter(q), f> = <m q, gather(f)>
    if data.ndim == field.ndim:
        a = np.sum(N(raw) * field)
        b = np.sum(data * mass.reshape((P,) + (1,) * (data.ndim - 1)) * N(got))
        rec.close(a, b, rtol=1e-8, scale=scale * P * np.abs(field).max() + 1e-300, msg="transpose")
    rec.nt(((W > 0).sum(0) > 1).any() or P == 1 and np.abs(field).max() > 0)
    rec.label(case["kernel"], f"{dim}d", f"rank{data.ndim - 1}", f"n{P}")


@part(gen, quick=250, thorough=6000, shards=3)
def fields(case, rec):
    """constant particle fields stay constant on the grid, linear grid fields are reproduced at particles"""
    dim, size, h = len(case["size"]), tuple(case["size"]), case["h"]
    m = hdx.ShapeFunctionMapping(shapefunction=case["kernel"], dim=dim)
    g = ref.Grid(case["origin"], h, size)
    pos = np.array(case["origin"]) + np.array(case["x"]) * h
    mass, lin = np.array(case["mass"]), np.array(case["lin"])
    P = len(pos)
    const = np.full((P, 2), lin[0])
    field = np.stack([lin[0] + g.nodes @ lin[1:], np.full(g.n, lin[0])], -1)
    raw, nrm, got = compiled(m, A(pos), A(case["origin"]), size, 1.0 / h, A(const), A(mass), A(field), 1e-9)
    W, _ = g.weights(case["kernel"], pos)
    wm = W.T @ mass
    live = wm > 1.1e-9
    rec.close(N(nrm)[live], np.full((live.sum(), 2), lin[0]), rtol=1e-6, scale=abs(lin[0]) + 1e-300, msg="constant field")
    dead = wm < 0.9e-9
    rec.check(np.all(N(nrm)[dead] == 0), "massless node not zero")
    rec.close(got, np.stack([lin[0] + pos @ lin[1:], np.full(P, lin[0])], -1), rtol=1e-8,
              scale=np.abs(field).max() + 1e-300, msg="linear field")
    rec.nt(np.abs(lin[1:]).max() > 0)
    rec.label(case["kernel"], f"{dim}d")


@part(gen, quick=24, thorough=1000, shards=2, x64=False)
def eager(case, rec):
    """the same calls uncompiled in float32 on default arguments"""
    dim, size, h = len(case["size"]), tuple(case["size"]), case["h"]
    m = hdx.ShapeFunctionMapping(shapefunction=case["kernel"], dim=dim)
    origin = [float(round(o)) for o in case["origin"]]
    g = ref.Grid(origin, h, size)
    pos = np.array(origin) + np.array(case["x"]) * h
    c = m.compute(A(pos), tuple(origin), size, 1.0 / h)
    data, mass = np.array(case["data"]), np.array(case["mass"])
    W, _ = g.weights(case["kernel"], pos)
    P = len(pos)
    e = (1,) * (data.ndim - 1)
    tol = 1e-4 * (1 + np.abs(pos).max() / h)
    scale = np.abs(data).max() * mass.max() * P + 1e-300
    raw = m.scatter_to_grid(c, A(data), A(mass), g.n, normalize=False)
    rec.close(raw, np.tensordot(W.T, data * mass.reshape((P,) + e), axes=(1, 0)), rtol=tol, scale=scale, msg="eager scatter")
    got = m.gather_from_grid(c, A(case["field"]))
    rec.close(got, np.tensordot(W, np.array(case["field"]), axes=(1, 0)), rtol=tol,
              scale=np.abs(np.array(case["field"])).max() + 1e-300, msg="eager gather")
    rec.nt(P > 1)


@composite
def gen_large(draw):
    dim, kernel, size, n = pick(draw, *share([(2, "linear", [300, 290], 70001), (3, "linear", [45, 42, 47], 66003), (2, "quadratic", [270, 260], 66100), (2, "cubic", [262, 263], 65800)]))
    return dict(dim=dim, kernel=kernel, size=size, n=n + integer(draw, 0, 3), seed=integer(draw, 0, 10 ** 6), h=pick(draw, 1.0, 0.05))


@part(gen_large, quick=8, thorough=60, shards=4)
def large(case, rec):
    """bodies and grids with more than 65536 particles and nodes (positions from the case's seed): every particle's data reaches its own nodes"""
    dim, size, n, h, kernel = case["dim"], tuple(case["size"]), case["n"], case["h"], case["kernel"]
    r = np.random.RandomState(case["seed"])
    m = hdx.ShapeFunctionMapping(shapefunction=kernel, dim=dim)
    u = 2 + r.uniform(0, 1, (n, dim)) * (np.array(size) - 5)
    mass, data, field = r.uniform(0.5, 2, n), r.uniform(-1, 1, n), r.uniform(-1, 1, int(np.prod(size)))
    raw, nrm, got = compiled(m, A(u * h), A([0.0] * dim), size, 1.0 / h, A(data), A(mass), A(field), 1e-9)
    deg = dict(linear=1, quadratic=2, cubic=3)[kernel]
    base = np.floor(u).astype(int)
    want_raw, want_w, want_got = np.zeros(len(field)), np.zeros(len(field)), np.zeros(n)
    for off in np.ndindex(*(5,) * dim):
        node = base + np.array(off) - 2
        w = np.prod(ref.bspline(deg, u - node), axis=1)
        hh = np.ravel_multi_index(tuple(node.T), size)
        np.add.at(want_raw, hh, w * mass * data)
        np.add.at(want_w, hh, w * mass)
        want_got += w * field[hh]
    rec.close(raw, want_raw, rtol=1e-8, scale=2.0, msg="scatter of a large body")
    ok = want_w > 1e-6
    rec.close(N(nrm)[ok], (want_raw / np.where(ok, want_w, 1))[ok], rtol=1e-6, scale=1.0, msg="average of a large body")
    rec.close(got, want_got, rtol=1e-8, scale=1.0, msg="gather of a large body")
    rec.nt()
