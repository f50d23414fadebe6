"""Hypothesis building blocks: every random choice of a case is drawn here, and a
case is plain JSON (numbers, strings, lists, dicts), so that a shrunk failure is a
replay file."""
import os

import numpy as np
from hypothesis import strategies as st


def pick(draw, *options):
    """First option is the simplest."""
    return draw(st.sampled_from(list(options)))


def integer(draw, lo, hi):
    return draw(st.integers(lo, hi))


def boolean(draw):
    return draw(st.booleans())


def num(draw, lo, hi, n=4096):
    """A float on a lattice of n+1 values between lo and hi; shrinks towards lo
    (or towards 0 when 0 is inside)."""
    if lo < 0 < hi:
        k = draw(st.integers(-n, n))
        return float(k / n * (hi if k > 0 else -lo))
    return float(lo + (hi - lo) * draw(st.integers(0, n)) / n)


def lognum(draw, lo, hi, n=256):
    """Log-uniform on a lattice, shrinks towards lo."""
    return float(lo * (hi / lo) ** (draw(st.integers(0, n)) / n))


def arr(draw, shape, lo=-1.0, hi=1.0, levels=65536):
    """Array (nested list) of lattice values, drawn as one byte string (so it stays
    cheap at hundreds of entries).  Zero bytes are 0.0 (or ``lo``)."""
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    raw = draw(st.binary(min_size=2 * n, max_size=2 * n))
    u = np.frombuffer(raw, dtype=">u2").astype(np.int64)
    if levels < 65536:
        u = u % levels
    if lo < 0 < hi:
        mag = (u + 1) // 2
        neg = (u % 2) == 1
        top = max(1, levels // 2)
        v = mag / top
        v = np.where(neg, v * lo, v * hi)
    else:
        v = lo + (hi - lo) * u / max(1, levels - 1)
    return v.reshape(shape).tolist()


def mask(draw, n):
    return (np.array(arr(draw, (n,), 0.0, 1.0, levels=2)) > 0.5).tolist()


def unit_vector(v, fallback=0):
    v = np.asarray(v, dtype=float)
    n = np.linalg.norm(v)
    if n < 1e-3:
        e = np.zeros_like(v)
        e[fallback] = 1.0
        return e
    return v / n


def rotation3(q):
    """Rotation matrix from 4 numbers (normalised), identity for zeros."""
    w, x, y, z = np.asarray(q, dtype=float) + np.array([1e-9, 0, 0, 0])
    n = np.sqrt(w * w + x * x + y * y + z * z)
    w, x, y, z = w / n, x / n, y / n, z / n
    return np.array([
        [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
        [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
        [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
    ])


def rot2(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s], [s, c]])


def sym(a):
    a = np.asarray(a, dtype=float)
    return 0.5 * (a + np.swapaxes(a, -1, -2))


def composite(fn):
    """``@composite`` with the draw function first, as in Hypothesis."""
    return st.composite(fn)


def pool(count, seed=0, **options):
    """``count`` configurations covering the pairs of option values greedily: compiled
    code depends on the configuration, so cases draw it from a pool and vary the data."""
    import random

    rng = random.Random(seed)
    keys = list(options)
    need = {((a, i), (b, j)) for x, a in enumerate(keys) for b in keys[x + 1:]
            for i in range(len(options[a])) for j in range(len(options[b]))}
    out = []
    for _ in range(count):
        best, gain = None, -1
        for _ in range(60):
            c = {k: rng.randrange(len(options[k])) for k in keys}
            g = sum(1 for p in need if c[p[0][0]] == p[0][1] and c[p[1][0]] == p[1][1])
            if g > gain:
                best, gain = c, g
        need -= {p for p in need if best[p[0][0]] == p[0][1] and best[p[1][0]] == p[1][1]}
        out.append({k: options[k][best[k]] for k in keys})
    return out


def share(configs):
    """The configurations this worker draws from (each shard takes its share, so that
    every configuration is compiled once per run)."""
    k, n = int(os.environ.get("VERIF_SHARD", "0")), int(os.environ.get("VERIF_SHARDS", "1"))
    if len(configs) <= 1 or n <= 1:
        return list(configs)
    mine = [c for i, c in enumerate(configs) if i % n == k % n]
    return mine or [configs[k % len(configs)]]
