"""Independent numpy reference of the method, used as oracle.

Nothing here imports hydraxmpm.  Weights are evaluated densely, particle by grid
node, from the truncated-power form of the cardinal B-spline, so no stencil,
hashing or scatter logic is shared with the code under test.
"""
import math
from math import comb, factorial

import numpy as np

ORDER = {"linear": 1, "quadratic": 2, "cubic": 3}


def bspline(n, x):
    """Cardinal B-spline of degree n centred at 0: M_n(x)."""
    x = np.asarray(x, dtype=float)
    if n == 0:
        return ((x >= -0.5) & (x < 0.5)).astype(float)
    s = np.zeros_like(x)
    for k in range(n + 2):
        s += (-1) ** k * comb(n + 1, k) * np.maximum(x + (n + 1) / 2 - k, 0.0) ** n
    s = s / factorial(n)
    return np.where(np.abs(x) >= (n + 1) / 2, 0.0, s)


def dbspline(n, x):
    return bspline(n - 1, x + 0.5) - bspline(n - 1, x - 0.5)


class Grid:
    def __init__(self, origin, h, size):
        self.origin = np.asarray(origin, dtype=float)
        self.h = float(h)
        self.size = tuple(int(s) for s in size)
        self.dim = len(self.size)
        idx = np.stack(np.meshgrid(*[np.arange(s) for s in self.size], indexing="ij"), -1)
        self.index = idx.reshape(-1, self.dim)
        self.nodes = self.origin + self.h * self.index
        self.n = len(self.nodes)

    def weights(self, kernel, pos):
        """(W, G): W[p, i] and G[p, i, dim] with respect to particle position."""
        n = ORDER[kernel]
        pos = np.asarray(pos, dtype=float)
        xi = (pos - self.origin) / self.h
        W1, D1 = [], []
        for d in range(self.dim):
            r = xi[:, d][:, None] - np.arange(self.size[d])[None, :]
            W1.append(bspline(n, r))
            D1.append(dbspline(n, r) / self.h)
        P = len(pos)
        W = np.ones((P, self.n))
        for d in range(self.dim):
            W = W * W1[d][:, self.index[:, d]]
        G = np.zeros((P, self.n, self.dim))
        for e in range(self.dim):
            g = np.ones((P, self.n))
            for d in range(self.dim):
                g = g * (D1[d] if d == e else W1[d])[:, self.index[:, d]]
            G[:, :, e] = g
        return W, G


def pad3(v):
    v = np.asarray(v, dtype=float)
    return np.concatenate([v, np.zeros(v.shape[:-1] + (3 - v.shape[-1],))], -1)


def contact(v, n, vw, mu):
    """Coulomb contact of velocity v against a wall with unit normal n."""
    rel = v - vw
    vn = float(rel @ n)
    if vn >= 0:
        return v.copy()
    vt = rel - vn * n
    s = np.linalg.norm(vt)
    drop = mu * (-vn)
    vt = vt * (max(0.0, s - drop) / s) if s > 0 else vt
    return vw + vt


def mpm_step(scheme, grids, bodies, dt, params, forces=()):
    """One explicit step (everything but the stress update).

    grids : list of Grid
    bodies: dicts with pos, vel, mass, vol, vol0, stress(3x3), F, Bp, kernel, g
    forces: ('gravity_grid', g_list, vec) | ('gravity_p', p_list, vec)
            | ('damping_grid', g_list, alpha) | ('damping_p', p_list, alpha)
            | ('collider', g_list, fn(nodes)->(dist, normal, wall_vel, mu), mult)
            | ('hook', dict of functions pre(bodies, fext), gforce(gm, gp, gf), gmom(gm, gn) that change their arguments)
    Returns the list of new body dicts (pos, vel, vol, F, L, Bp) and grid data.
    """
    alpha = params.get("alpha", 0.99)
    aflip = scheme == "usl_aflip"
    fext = [np.zeros_like(b["vel"]) for b in bodies]
    bodies = [dict(b) for b in bodies]
    mem = []
    gm = [np.zeros(g.n) for g in grids]
    gp = [np.zeros((g.n, g.dim)) for g in grids]
    gf = [np.zeros((g.n, g.dim)) for g in grids]
    for f in forces:
        if f[0] == "gravity_p":
            for p in f[1]:
                fext[p] = fext[p] + bodies[p]["mass"][:, None] * np.asarray(f[2])
        elif f[0] == "damping_p":
            for p in f[1]:
                b = bodies[p]
                tot = fext[p]
                fext[p] = tot - f[2] * np.abs(tot) * np.sign(b["vel"])
        elif f[0] == "hook":
            f[1]["pre"](bodies, fext)
    for k, b in enumerate(bodies):
        g = grids[b["g"]]
        W, G = g.weights(b["kernel"], b["pos"])
        mem.append((W, G))
        m, v = b["mass"], b["vel"]
        gm[b["g"]] += W.T @ m
        vel = np.repeat(v[:, None, :], g.n, 1)
        if aflip:
            d = pad3(g.nodes[None, :, :] - b["pos"][:, None, :])
            vel = vel - np.einsum("pij,pnj->pni", b["Bp"], d)[..., : g.dim]
        gp[b["g"]] += np.einsum("pn,p,pnd->nd", W, m, vel)
        S = b["stress"][:, : g.dim, : g.dim]
        gf[b["g"]] += np.einsum("p,pij,pnj->ni", b["vol"], S, G) + W.T @ fext[k]
    for f in forces:
        if f[0] == "gravity_grid":
            for i in f[1]:
                gf[i] = gf[i] + gm[i][:, None] * np.asarray(f[2])
        elif f[0] == "damping_grid":
            for i in f[1]:
                gf[i] = gf[i] - f[2] * np.abs(gf[i]) * np.sign(gp[i] / (gm[i][:, None] + 1e-22))
        elif f[0] == "hook":
            f[1]["gforce"](gm, gp, gf)
    gn = [p + q * dt for p, q in zip(gp, gf)]
    for f in forces:
        if f[0] == "collider":
            for i in f[1]:
                dist, nor, wv, mu = f[2](grids[i].nodes)
                for a in np.where((dist <= 0) & (gm[i] > 1e-14))[0]:
                    gn[i][a] = gm[i][a] * contact(gn[i][a] / gm[i][a], nor[a], wv[a], f[3] * mu[a])
        elif f[0] == "hook":
            f[1]["gmom"](gm, gn)
    cut = params.get("small_mass_cutoff", 1e-7) if aflip else 1e-12
    out = []
    for k, b in enumerate(bodies):
        g = grids[b["g"]]
        W, G = mem[k]
        M = gm[b["g"]]
        ok = (M > cut)[:, None]
        safe = np.where(M > cut, M, 1.0)[:, None]
        vo = np.where(ok, gp[b["g"]] / safe, 0.0)
        vn = np.where(ok, gn[b["g"]] / safe, 0.0)
        pic, old = W @ vn, W @ vo
        P = len(b["pos"])
        L = np.zeros((P, 3, 3))
        if aflip and not params.get("use_mls_update", True):
            d = g.nodes[None, :, :] - b["pos"][:, None, :]
            coef = 1.0 / 3.0 if b["kernel"] == "cubic" else 0.25
            L[:, : g.dim, : g.dim] = -np.einsum("pn,ni,pnj->pij", W, vn, d) / (coef * g.h**2)
        else:
            L[:, : g.dim, : g.dim] = -np.einsum("ni,pnj->pij", vn, G)
        Fi = np.eye(3) - L * dt
        F = Fi @ b["F"]
        if g.dim == 2:
            F[:, 2, 2] = 1.0
        J = np.linalg.det(F)
        new = dict(b)
        if aflip:
            adj = b["vel"] - old
            a = np.full((P, 1), float(alpha))
            if params.get("use_dynamic_alpha", True):
                sup = (W @ M) / (b["mass"] + 1e-9)
                lo = params.get("alpha_support_min", 1.1)
                hi = params.get("alpha_support_max", 1.5)
                a = a * np.clip((sup - lo) / (hi - lo), 0, 1)[:, None]
                new["support"] = sup
            v1 = pic + a * adj
            cap = params.get("cfl_limit", 0.5) * g.h / dt
            sp = np.linalg.norm(v1, axis=1, keepdims=True)
            new["clamped"] = sp > cap
            v1 = v1 * np.minimum(1.0, cap / (sp + 1e-12))
            beta = np.where(J < 1.0, params.get("beta_min", 0.0), params.get("beta_max", 0.5))
            x1 = b["pos"] + dt * (pic + alpha * beta[:, None] * adj)
            new["Bp"] = L.copy()
        else:
            v1 = (1 - alpha) * pic + alpha * (b["vel"] + pic - old)
            x1 = b["pos"] + dt * pic
        new.update(pos=x1, vel=v1, F=F, L=L, vol=J * b["vol0"], J=J, pic=pic, Finc=Fi)
        if b.get("Fs") is not None:
            new["Fs"] = Fi @ b["Fs"]
        out.append(new)
    return out, dict(mass=gm, mom=gp, force=gf, mom_nt=gn)


# -------------------------------------------------------------------- tensors
def dev(t):
    t = np.asarray(t, dtype=float)
    return t - np.trace(t, axis1=-2, axis2=-1)[..., None, None] / 3.0 * np.eye(3)


def pressure(s):
    return np.trace(np.asarray(s, dtype=float), axis1=-2, axis2=-1) / 3.0


def j2(s):
    d = dev(s)
    return 0.5 * np.sum(d * d, axis=(-2, -1))


def qvm(s):
    return np.sqrt(3.0 * j2(s))


def symm(a):
    return 0.5 * (a + np.swapaxes(a, -1, -2))


def skew(a):
    return 0.5 * (a - np.swapaxes(a, -1, -2))


def expm(a):
    """Scaling-and-squaring Taylor matrix exponential."""
    a = np.asarray(a, dtype=float)
    nrm = np.max(np.abs(a)) * a.shape[-1]
    s = max(0, int(math.ceil(math.log2(max(nrm, 1e-30)))) + 4) if nrm > 0 else 0
    b = a / 2.0**s
    out = np.eye(a.shape[-1]) + np.zeros_like(a)
    term = np.eye(a.shape[-1]) + np.zeros_like(a)
    for k in range(1, 16):
        term = term @ b / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out
