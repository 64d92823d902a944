"""meshes and reference implementations for the geometry contracts"""
import itertools

import numpy as np
import util

GF = ("geometry/utils.py", "geometry/cpp/fast_geometry.cpp", "generation/mesh_generator.py")


def connectivity(rng, k, dim, szs):
    """arbitrary connectivity tables: real meshes, random distinct rows (non-manifold, gaps), fans, duplicated rows"""
    w = dim + 1
    kind = k % 6
    if k < len(szs) and szs[k] > 0:
        n = szs[k]
        base = rng.integers(0, 3) * int(rng.choice([0, 1, 1000, 70000, 2 ** 20]))
        m = max(w + 1, int(rng.choice([n // 3 + w + 1, n + w, 3 * n + w])))
        return distinct_rows(rng, n, m, w) + base
    if kind == 0:
        p, t = util.rand_mesh(rng, dim, int(rng.integers(w + 1, 200)))
        return t
    if kind == 1:      # dense, non-manifold
        m = int(rng.integers(w, 9))
        return distinct_rows(rng, int(rng.integers(1, 30)), m, w)
    if kind == 2:      # sparse numbering
        u = np.sort(rng.choice(10 ** int(rng.integers(2, 7)), 12, replace=False))
        return u[distinct_rows(rng, int(rng.integers(1, 20)), 12, w)]
    if kind == 3:      # shared entity many times (fan around one edge / facet)
        n = int(rng.integers(1, 12))
        t = np.empty((n, w), int)
        t[:, :w - 1] = np.arange(w - 1)
        t[:, w - 1] = w - 1 + np.arange(n)
        return np.array([r[rng.permutation(w)] for r in t])
    if kind == 4:      # single element, high index
        return rng.choice(10 ** 6, w, replace=False).reshape(1, w)
    p, t = util.rand_mesh(rng, dim, int(rng.integers(w + 1, 30)), unused=False)
    return t


def distinct_rows(rng, n, m, w):
    t = rng.integers(0, m, (n, w))
    while True:
        s = np.sort(t, 1)
        bad = (s[:, 1:] == s[:, :-1]).any(1)
        if not bad.any():
            return t
        t[bad] = rng.integers(0, m, (int(bad.sum()), w))


def forms(rng, t):
    """the same table in another memory layout / integer type"""
    f = rng.integers(6)
    if f == 1:
        return np.asfortranarray(t)
    if f == 2:
        return t.astype(np.int32)
    if f == 3:
        return np.concatenate([t, t], axis=1)[:, :t.shape[1]]
    if f == 4:
        return np.repeat(t, 2, axis=0)[::2]
    return t


def edges_of(t):
    s = np.sort(np.asarray(t, dtype=np.int64), axis=1)
    return [tuple(r) for q in itertools.combinations(range(s.shape[1]), 2) for r in s[:, q].tolist()]


def facets_of(t):
    s = np.sort(np.asarray(t, dtype=np.int64), axis=1)
    return [tuple(r) for q in itertools.combinations(range(s.shape[1]), 3) for r in s[:, q].tolist()]


def boundary(t, dim):
    c = util.counts(edges_of(t) if dim == 2 else facets_of(t))
    return sorted(k for k, v in c.items() if v == 1)


def chain(rng, t):
    """half of the time: rows in an order in which consecutive rows agree in several places"""
    if rng.random() < 0.5 or len(t) < 2:
        return t
    w = t.shape[1]
    t = np.sort(t, axis=1)[:, rng.permutation(w)]
    return t[np.lexsort([t[:, k] for k in rng.permutation(w)])]
