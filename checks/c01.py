"""C01: interpolation weights are exact, consistent B-splines."""
from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a kernel, a grid (origin, spacing, node counts), and 1-12 particle positions anywhere "
        "in or beyond the grid, including positions exactly on nodes, edges and cell centres. Non-trivial: "
        "at least one particle has a full stencil and is not on a node, or a stencil is cut by the grid edge.")
ASSUMPTIONS = ["float64 arithmetic; oracle: truncated-power cardinal B-splines evaluated densely over all nodes"]


PRESETS = {2: [([4, 4], 1.0), ([3, 8], 0.7), ([9, 5], 7.0), ([6, 6], 0.01)],
           3: [([4, 4, 4], 1.0), ([3, 5, 4], 0.3), ([6, 4, 7], 0.5)]}


@composite
def gen(draw, beyond=False):
    dim = pick(draw, 2, 3)
    kernel = pick(draw, *KERNELS)
    size, h = pick(draw, *PRESETS[dim])
    origin = [num(draw, -5, 5, 40) for _ in range(dim)]
    n = pick(draw, 1, 7)
    snap = pick(draw, 0, 1, 2, 4, 64)
    lo, hi = (-2.0, 1.0) if beyond else (0.0, 1.0)
    u = np.asarray(arr(draw, (n, dim), 0.0, 1.0))
    cells = np.array(size) - 1.0
    x = u * (cells + 3.0) - 1.5 if beyond else u * cells
    if snap:
        x = np.round(x * snap) / snap
        near = pick(draw, 0.0, 0.0, 1e-2, 1e-3, 1e-4, 1e-6)     # just beside the seams of the stencil
        x = x + near * np.asarray(arr(draw, (n, dim), -1.0, 1.0))
        if not beyond:
            x = np.clip(x, 0.0, cells)
    return dict(kernel=kernel, size=size, h=h, origin=origin, x=x.tolist())


@eqx.filter_jit
def compiled(m, pos, origin, size, inv):
    return m.compute(pos, origin, size, inv)


def compute(case):
    dim = len(case["size"])
    m = hdx.ShapeFunctionMapping(shapefunction=case["kernel"], dim=dim)
    pos = np.array(case["origin"]) + np.array(case["x"]) * case["h"]
    cache = compiled(m, A(pos), A(case["origin"]), tuple(case["size"]), 1.0 / case["h"])
    return m, pos, cache


def dense(cache, P, nodes, dim):
    """Scatter the interaction list to dense (P, nodes) arrays by node index."""
    W = np.zeros((P, nodes))
    G = np.zeros((P, nodes, 3))
    pid, nid = N(cache.point_ids).astype(int), N(cache.node_hashes).astype(int)
    np.add.at(W, (pid, nid), N(cache.shape_vals))
    np.add.at(G, (pid, nid), N(cache.shape_grads))
    return W, G


def kink(case, xi):
    """Linear gradients jump across nodes: compare them only off the nodes."""
    return case["kernel"] == "linear" and bool(np.any(np.abs(xi - np.round(xi)) < 1e-6))


def examine(case, rec):
    kernel, h = case["kernel"], case["h"]
    dim = len(case["size"])
    m, pos, cache = compute(case)
    g = ref.Grid(case["origin"], h, case["size"])
    P = len(pos)
    sw = {"linear": 2, "quadratic": 3, "cubic": 4}[kernel] ** dim
    rec.check(cache.num_interactions == P * sw, f"window: {cache.num_interactions} interactions, not {P * sw}")
    rec.check(N(cache.node_hashes).astype(np.int64).max() < g.n and N(cache.node_hashes).astype(np.int64).min() >= 0,
              "window: node index outside the grid")
    W, G = dense(cache, P, g.n, dim)
    Wr, Gr = g.weights(kernel, pos)
    rec.close(W, Wr, atol=1e-9, rtol=0, msg="weights")
    rec.le(-N(cache.shape_vals), 1e-12, "negative weight")
    rec.finite(cache.shape_grads, "gradients")
    xi = np.array(case["x"])
    smooth = np.array([not kink(case, xi[p]) for p in range(P)])
    rec.close(G[smooth][..., :dim], Gr[smooth], atol=1e-7 / h, rtol=0, msg="gradients")
    if dim == 2:
        rec.check(np.all(N(cache.shape_grads)[:, 2] == 0), "gradients: third component not zero in 2D")
    # per-interaction identity: rel_dist is (x_p - x_node)/h of the node it is listed with
    pid, nid = N(cache.point_ids).astype(int), N(cache.node_hashes).astype(int)
    live = N(cache.shape_vals) > 0
    want = (pos[pid] - g.nodes[nid]) / h
    rec.close(N(cache.rel_dist)[live][:, :dim], want[live], atol=1e-8, rtol=0, msg="relative distance")
    # partition of unity and linear reproduction where the whole stencil is inside
    r = (ref.ORDER[kernel] + 1) / 2
    full = np.all((xi >= r - 0.5 - 1e-9) & (xi <= np.array(case["size"]) - 1 - (r - 0.5) + 1e-9), axis=1) \
        if kernel != "linear" else np.all((xi >= 0) & (xi <= np.array(case["size"]) - 1), axis=1)
    if kernel == "cubic":
        full = np.all((xi >= 1) & (xi <= np.array(case["size"]) - 2), axis=1)
    if full.any():
        rec.close(W[full].sum(1), np.ones(full.sum()), atol=1e-9, rtol=0, msg="partition of unity")
        rec.close(W[full] @ g.nodes, pos[full], atol=1e-8 * (1 + np.abs(pos).max()), rtol=0, msg="linear reproduction")
        ok = full & smooth
        rec.close(G[ok].sum(1), np.zeros((ok.sum(), 3)), atol=1e-7 / h, rtol=0, msg="gradient sum")
        rec.close(np.einsum("pni,nj->pij", G[ok][..., :dim], g.nodes),
                  np.tile(np.eye(dim), (ok.sum(), 1, 1)), atol=1e-7 / h * (1 + np.abs(g.nodes).max()), rtol=0,
                  msg="gradient of linear field")
    off = np.any(np.abs(xi - np.round(xi)) > 1e-3, axis=1)
    rec.nt((full & off).any() or not full.all())
    rec.label(kernel, f"{dim}d", "cut" if not full.all() else "full")


@part(gen, quick=900, thorough=40000, shards=3)
def inside(case, rec):
    """positions inside the node box: weights and gradients against dense B-splines"""
    examine(case, rec)


@part(lambda: gen(beyond=True), quick=600, thorough=24000, shards=2)
def edge(case, rec):
    """positions up to 1.5 cells beyond the node box: out-of-grid nodes contribute nothing"""
    examine(case, rec)


@composite
def gen_fd(draw):
    c = draw(gen())
    x = np.array(c["x"])
    x = np.where(np.abs(x - np.round(x * 2) / 2) < 0.02, x + 0.05, x)
    c["x"] = x.tolist()
    c["dir"] = arr(draw, (len(c["size"]),), -1, 1, levels=17)
    return c


@part(gen_fd, quick=200, thorough=4000, shards=1)
def derivative(case, rec):
    """gradients are the derivatives of the weights: central difference of the code's own weights"""
    h = case["h"]
    dim = len(case["size"])
    d = unit_vector(case["dir"])
    e = 1e-4
    m, pos, cache = compute(case)
    P, n = len(pos), int(np.prod(case["size"]))
    W, G = dense(cache, P, n, dim)
    Ws = []
    for s in (+1, -1):
        c2 = dict(case)
        c2["x"] = (np.array(case["x"]) + s * e * d).tolist()
        Ws.append(dense(compute(c2)[2], P, n, dim)[0])
    rec.close((Ws[0] - Ws[1]) / (2 * e * h), G[..., :dim] @ d, atol=1e-5 / h, rtol=0, msg="derivative")
    rec.nt(n > 4)


@part(gen, quick=300, thorough=10000, shards=1, x64=False)
def single_precision(case, rec):
    """compiled, in the default float32: weights and conservation at ties (cell centres and nodes)"""
    dim, h = len(case["size"]), case["h"]
    case = dict(case, origin=[round(o) for o in case["origin"]])
    m, pos, cache = compute(case)
    g = ref.Grid(case["origin"], h, case["size"])
    W, G = dense(cache, len(pos), g.n, dim)
    Wr, Gr = g.weights(case["kernel"], N(A(pos)).astype(float))
    tol = 2e-5 * (1 + np.abs(pos).max() / h)
    rec.close(W, Wr, atol=tol, rtol=0, msg="float32 weights")
    rec.nt(True)


@composite
def gen_large(draw):
    kernel, size = pick(draw, *share([("linear", [300, 290]), ("cubic", [37, 41, 44]), ("quadratic", [3, 40000]), ("quadratic", [50000, 3]), ("linear", [4, 4, 5000]), ("cubic", [190, 200])]))
    dim = len(size)
    return dict(kernel=kernel, size=size, h=pick(draw, 1.0, 0.01, 7.0), origin=[num(draw, -5, 5, 40) for _ in range(dim)],
                u=arr(draw, (7, dim), 0.0, 1.0), far=boolean(draw), snap=pick(draw, 0, 2, 64))


@part(gen_large, quick=60, thorough=2000, shards=3)
def large_grids(case, rec):
    """grids with more than 32767 nodes, also very elongated: each interaction has the weight and gradient of its own node"""
    kernel, size, h = case["kernel"], np.array(case["size"]), case["h"]
    dim = len(size)
    u = np.array(case["u"])
    x = u * (size - 1.0)
    if case["far"]:
        x = size - 1.0 - np.minimum(u * 4.0, size - 1.0)     # near the last nodes
    if case["snap"]:
        x = np.clip(np.round(x * case["snap"]) / case["snap"], 0, size - 1)
    case = dict(case, x=x.tolist())
    m, pos, cache = compute(case)
    deg = ref.ORDER[kernel]
    pid, nid = N(cache.point_ids).astype(np.int64), N(cache.node_hashes).astype(np.int64)
    rec.check(nid.min() >= 0 and nid.max() < size.prod(), "node index outside the grid")
    node = np.stack(np.unravel_index(nid, tuple(size)), -1)
    xi = (pos - np.array(case["origin"])) / h
    d = xi[pid] - node
    w1 = ref.bspline(deg, d)
    w, sv = np.prod(w1, axis=1), N(cache.shape_vals)
    # an interaction that stands for a node outside the grid has no weight; the others have their node's own
    live = sv > 1e-12
    rec.close(sv[live], w[live], atol=1e-7, rtol=0, msg="weight of a node of a large grid")
    for p in range(len(pos)):
        mine = live & (pid == p)
        rec.check(len(set(nid[mine].tolist())) == mine.sum(), "a node is listed twice for one particle")
    tot = np.zeros(len(pos))
    np.add.at(tot, pid, sv)
    base = np.floor(xi).astype(int)
    want = np.zeros(len(pos))
    for off in np.ndindex(*(5,) * dim):
        k = base + np.array(off) - 2
        want += np.prod(ref.bspline(deg, xi - k), axis=1) * np.all((k >= 0) & (k < size), axis=1)
    rec.close(tot, want, atol=1e-7, rtol=0, msg="sum of the weights on a large grid")
    # gradients: derivative of the product along each axis
    e = 1e-5
    off_node = np.all(np.abs(d - np.round(d)) > 2 * e, axis=1) if kernel == "linear" else np.ones(len(d), bool)
    for a in range(dim):
        s = np.zeros(dim)
        s[a] = e
        g = (np.prod(ref.bspline(deg, d + s), axis=1) - np.prod(ref.bspline(deg, d - s), axis=1)) / (2 * e) / h
        sel = live & off_node
        rec.close(N(cache.shape_grads)[sel, a], g[sel], atol=1e-4 / h, rtol=0, msg="gradient of a node of a large grid")
    rec.close(N(cache.rel_dist)[live][:, :dim], d[live], atol=1e-6, rtol=0, msg="relative distance on a large grid")
    rec.nt(nid.max() > 32767)
    rec.label("large", kernel, f"{dim}d")
