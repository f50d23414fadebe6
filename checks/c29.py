"""C29: grids cover the requested domain at the requested spacing."""
from fractions import Fraction

from hydraxmpm.grid.grid import GridArrays, GridDomain
from hydraxmpm.shapefunctions.mapping import ShapeFunctionMapping

from lib.pbt import part
from lib.gen import *
from lib.mpm import *

RULE = ("A case is a box given in decimal numbers, a cell size that divides it exactly or not, a padding and points in the box. Non-trivial: the "
        "extent divided by the cell size is not exact in binary floating point, or the box is not a multiple of the cell size.")
DEC = [Fraction(1), Fraction(1, 2), Fraction(1, 10), Fraction(1, 5), Fraction(1, 20), Fraction(1, 4), Fraction(1, 100), Fraction(3, 10), Fraction(7, 1000), Fraction(1, 3), Fraction(1, 7), Fraction(25, 10000), Fraction(6, 10), Fraction(12), Fraction(11, 10)]


@composite
def gen(draw):
    dim = pick(draw, 2, 3)
    top = 60 if dim == 2 else 16
    hi = pick(draw, *range(len(DEC)))
    cells = [integer(draw, 1, top) for _ in range(dim)]
    if boolean(draw) and dim == 2:
        cells[0] = integer(draw, 1, 400)
        cells[1] = integer(draw, 1, 12)
    return dict(dim=dim, h=hi, cells=cells, num=[integer(draw, -3000, 3000) for _ in range(dim)], den=pick(draw, 1, 10, 100, 1000, 8), extra=arr(draw, (dim,), 0.02, 0.98) if integer(draw, 0, 3) == 0 else None,
                padding=integer(draw, 0, 4), how=pick(draw, "tuple", "array", "builder", "default"), points=arr(draw, (6, dim), 0, 1), snap=boolean(draw))


def numbers(case):
    """exact box: origin, end and cell size as fractions"""
    h = DEC[case["h"]]
    o = [Fraction(n, case["den"]) * (h if case["den"] == 8 else 1) for n in case["num"]]
    e = [a + h * c + (h * Fraction(x).limit_denominator(64) if case["extra"] else 0) for a, c, x in zip(o, case["cells"], case["extra"] or case["cells"])]
    return o, e, h


def domain_of(case):
    o, e, h = numbers(case)
    of, ef, hf = tuple(float(q) for q in o), tuple(float(q) for q in e), float(h)
    if case["how"] in ("tuple", "default"):
        kw = {} if case["how"] == "default" else dict(padding=case["padding"])
        return GridDomain.create(of, ef, hf, **kw), 2 if case["how"] == "default" else case["padding"]
    if case["how"] == "array":
        return GridDomain.create(A(of), A(ef), A(hf) if case["snap"] else hf, padding=case["padding"]), case["padding"]
    b = hdx.SimBuilder()
    kw = {} if case["padding"] == 0 else dict(padding=case["padding"])
    i = b.add_grid(origin=of, end=ef, cell_size=hf, **kw)
    return b.grid_domains[i], case["padding"] or 3


def domains_of(case, rec):
    dim = case["dim"]
    o, e, h = numbers(case)
    if not X64 and case["how"] == "array" and max(abs(q) for q in o + e) * 1.2e-7 > 5e-4 * h:
        rec.label("box too fine for single precision")
        return
    g, pad = domain_of(case)
    want = tuple(int((b - a) / h) + 2 * pad + 1 for a, b in zip(o, e))
    rec.check(tuple(g.grid_size) == want, lambda: f"{tuple(g.grid_size)} nodes instead of {want} for the box {[float(q) for q in o]} to {[float(q) for q in e]}, cell {float(h)}, padding {pad}")
    hash(g)     # grids are static arguments of compiled steps
    rec.check(g.dim == dim and g.num_cells == int(np.prod(want)), "dimension or node count")
    hf = float(h)
    low = np.array([float(a - pad * h) for a in o])
    top = np.array([float(b + pad * h) for b in e])
    sc = max(np.abs(low).max(), np.abs(top).max(), hf)
    one = 1e-14 if X64 or case["how"] != "array" else 1e-7
    rec.close(np.array(g.origin), low, rtol=one * 10, scale=sc, msg="origin of the padded grid")
    rec.close(np.array(g.end), top, rtol=one * 10, scale=sc, msg="end of the padded grid")
    rec.close(g.cell_size, hf, rtol=1e-7, msg="cell size")
    mesh, stack = N(g.position_mesh), N(g.position_stack)
    rec.check(mesh.shape == want + (dim,) and stack.shape == (int(np.prod(want)), dim), "shape of the node coordinates")
    idx = np.stack(np.meshgrid(*[np.arange(s) for s in want], indexing="ij"), -1)
    x = low + hf * idx
    tol = 3e-7 * (np.abs(top - low).max() + (0 if X64 else sc))      # indices are single precision numbers
    rec.close(mesh, x, rtol=0, atol=tol, msg="node coordinates")
    rec.close(stack, x.reshape(-1, dim), rtol=0, atol=tol, msg="node order")
    for d in range(dim):
        gap = np.diff(mesh[..., d], axis=d)
        rec.close(gap, np.full(gap.shape, hf), rtol=0, atol=2 * tol, msg="node spacing")
    # the box lies within the nodes, with the padding around it
    if not case["extra"]:
        rec.le(stack.min(0), np.array([float(a) for a in o]) - pad * hf, tol=tol, msg="first node inside the padding")
        rec.le(np.array([float(b) for b in e]) + pad * hf, stack.max(0), tol=tol, msg="last node inside the padding")
    # arrays on the nodes
    a = GridArrays.new(g)
    n = int(np.prod(want))
    rec.check(a.mass_stack.shape == (n,) and a.moment_stack.shape == a.force_stack.shape == a.moment_nt_stack.shape == (n, dim) and a.dim == dim, "shape of the node arrays")
    for f in (a.mass_stack, a.moment_stack, a.force_stack, a.moment_nt_stack):
        rec.check(not np.any(N(f)), "node arrays do not start at zero")
    rec.nt(bool(case["extra"]) or any((float(b) - float(a)) / hf != c for a, b, c in zip(o, e, case["cells"])))
    rec.label(f"{dim}D", case["how"], "partial cell" if case["extra"] else "multiple", f"padding {pad}")


@part(gen, quick=300, thorough=20000, shards=6)
def domains(case, rec):
    """size, node coordinates and order of grids for decimal boxes against exact rational arithmetic"""
    domains_of(case, rec)


@part(gen, quick=120, thorough=8000, shards=2, x64=False)
def domains32(case, rec):
    """the same in the default single precision"""
    domains_of(case, rec)


CFG = [dict(kernel=k, dim=d, cells=c, padding=p, h=h) for i, k in enumerate(KERNELS) for d, c, p, h in ((2, [4, 7], 2, 2 + i), (2, [1, 3], 3, 9 + i), (3, [3, 1, 4], 2, 7 + i), (3, [2, 2, 3], 3, 4 * i))]


@eqx.filter_jit
def connect(m, x, origin, size, inv):
    return m.compute(x, origin, size, inv)


@composite
def gen_cover(draw):
    c = dict(pick(draw, *share(CFG)))
    dim = c["dim"]
    c.update(num=[integer(draw, -3000, 3000) for _ in range(dim)], den=pick(draw, 1, 10, 100, 8), extra=None, how=pick(draw, "tuple", "builder"), points=arr(draw, (8, dim), 0, 1), snap=arr(draw, (8, dim), 0, 1))
    return c


@part(gen_cover, quick=500, thorough=6000, shards=6)
def cover(case, rec):
    """every point of the box, edges and nodes included, interpolates completely from the grid's nodes in the order of its coordinates"""
    dim = case["dim"]
    o, e, h = numbers(case)
    g, pad = domain_of(case)
    hf = float(h)
    of = np.array([float(q) for q in o])
    u = np.array(case["points"]) * np.array(case["cells"])
    s = np.array(case["snap"])
    u = np.where(s < 0.3, np.round(u), u)                 # on nodes and box faces
    u = np.where((s > 0.3) & (s < 0.5), np.round(u - 0.5) + 0.5, u)
    u = np.clip(u, 0, case["cells"])
    x = of + u * hf
    m = ShapeFunctionMapping(case["kernel"], dim)
    c = connect(m, A(x), A(g.origin), tuple(g.grid_size), 1.0 / g.cell_size)
    P = len(x)
    w, ids, hsh = N(c.shape_vals), N(c.point_ids).astype(int), N(c.node_hashes).astype(int)
    grads, rel = N(c.shape_grads)[:, :dim], N(c.rel_dist)[:, :dim]
    nodes = N(g.position_stack)
    rec.check(hsh.max() < g.num_cells, "node index beyond the grid")
    slack = 1e-9 + 1e-13 * np.abs(of).max() / hf + 3e-7 * max(g.grid_size) * 4
    tot = np.bincount(ids, w, P)
    rec.close(tot, np.ones(P), rtol=0, atol=1e-9 + 1e-12 * np.abs(of).max() / hf, msg="weights of a point in the box")
    for d in range(dim):
        rec.close(np.bincount(ids, w * nodes[hsh, d], P), x[:, d], rtol=0, atol=slack * hf, msg="position interpolated from the node coordinates")
        on = w > 1e-12
        rec.close((x[ids, d] - nodes[hsh, d])[on] / hf, rel[on, d], rtol=0, atol=slack, msg="distance to the node")
        for k in range(dim):
            # (the linear kernel has no gradient on a node)
            ok = np.ones(P, bool) if case["kernel"] != "linear" else np.all(np.abs(u - np.round(u)) > 1e-6, axis=1)
            rec.close(np.bincount(ids, grads[:, d] * nodes[hsh, k], P)[ok], np.full(ok.sum(), float(d == k)), rtol=0, atol=slack * 30, msg="gradient of the node coordinates")
    # the same interaction against weights evaluated densely on the node coordinates
    W, _ = ref.Grid(np.array(g.origin), hf, g.grid_size).weights(case["kernel"], x)
    got = np.zeros_like(W)
    np.add.at(got, (ids, hsh), w)
    rec.close(got, W, rtol=0, atol=1e-8 + 1e-12 * np.abs(of).max() / hf, msg="weights on the nodes")
    rec.nt(bool((s < 0.5).any()))
    rec.label(case["kernel"], f"{dim}D", f"padding {pad}")
