import numpy as np
import meshes as me
import util
from SeismicMesh.geometry import utils as gu

BOUNDS = "meshes up to a few thousand vertices with duplicated (exact, within tolerance, -0.0/0.0) vertices, duplicated, inverted elements"


def dirty(rng, dim, n=None, scale=1.0):
    p, t = util.rand_mesh(rng, dim, n or int(rng.integers(dim + 2, 30)), scale=scale)
    kind = rng.integers(4)
    if kind == 1:
        p = p - 0.5 * scale
    elif kind == 2:
        p = np.round(p / scale * 4) / 4 * scale
    elif kind == 3:
        p = np.round((p - 0.5 * scale) / scale * 3) * scale
    # degenerate elements after rounding are dropped (distinct coordinates needed)
    ok = np.abs(util.vol(p, t)) > 1e-6 * scale ** dim
    t = t[ok]
    if len(t) == 0:
        t = np.arange(dim + 1).reshape(1, -1)
        p = np.vstack((np.zeros((1, dim)), np.eye(dim))) * scale
    # duplicates of vertices
    nd = int(rng.integers(0, 6))
    for _ in range(nd):
        i = int(rng.integers(len(p)))
        q = p[i].copy()
        if rng.random() < 0.5:
            q = np.where(q == 0, -q, q)
        p = np.vstack((p, q))
        r, c = np.nonzero(t == i)
        for a, b in zip(r, c):
            if rng.random() < 0.5:
                t[a, b] = len(p) - 1
    # duplicate elements
    for _ in range(int(rng.integers(0, 5))):
        t = np.vstack((t, t[int(rng.integers(len(t)))][rng.permutation(dim + 1)]))
    # unused vertices
    if rng.random() < 0.6:
        p = np.vstack((p, rng.random((int(rng.integers(1, 4)), dim)) * scale))
    q = rng.permutation(len(p))
    iq = np.empty_like(q)
    iq[q] = np.arange(len(q))
    return p[q], iq[t][rng.permutation(len(t))]


def key(p, r, nd):
    return tuple(sorted(tuple((np.round(x, nd) + 0.0).tolist()) for x in p[r]))


def run(o):
    def clean(rng, k):
        dim = 2 + k % 2
        scale = float(rng.choice([1.0, 1.0, 1000.0, 1e-3]))
        p, t = dirty(rng, dim, scale=scale, n=int(rng.choice([0, 0, 0, 300])) or None)
        p0, t0 = p.copy(), t.copy()
        du, fo = bool(rng.integers(2)), bool(rng.integers(2))
        kw = {}
        if rng.random() < 0.3:
            kw["ptol"] = float(rng.choice([2e-13, 1e-10, 1e-8]))
        if dim == 3 or rng.random() < 0.5:
            kw["dim"] = dim
        tt = me.forms(rng, t)
        inp = {"p": p0, "t": t0, "delete_unused": du, "fix_orientation": fo, **kw}
        P, T, jx = gu.fix_mesh(p, tt, delete_unused=du, fix_orientation=fo, **kw)
        o.check(np.array_equal(p, p0) and np.array_equal(tt, t0), "inputs modified", inp)
        T = np.asarray(T)
        o.check(T.ndim == 2 and T.shape[1] == dim + 1, f"connectivity shape {T.shape}", inp)
        o.check(T.min() >= 0 and T.max() < len(P), "element index out of range", inp)
        snap = (p.max(0) - p.min(0)).max() * kw.get("ptol", 2e-13)
        d = np.round(P / snap)
        o.check(len(np.unique(d + 0.0, axis=0)) == len(P), "two vertices coincide", inp)
        o.check(len(np.unique(P + 0.0, axis=0)) == len(P), "two vertices are equal", inp)
        st = np.sort(T, axis=1)
        o.check(len(np.unique(st, axis=0)) == len(st), "two elements have the same vertices", inp)
        if fo:
            o.check(np.all(util.vol(P, T) >= -1e-12 * scale ** dim), "negative volume after orientation fixing", inp)
        if du:
            o.check(len(np.unique(T)) == len(P), "a vertex belongs to no element", inp)
        nd = 9 if scale >= 1 else 12
        a = {key(p0, r, nd) for r in t0}
        b = [key(P, r, nd) for r in T]
        o.check(len(b) == len(set(b)), "an element is kept twice", inp)
        o.check(set(b) == a, f"elements differ: {len(b)} returned, {len(a)} expected", inp)
        if not du:
            o.check({key(p0, [i], nd) for i in range(len(p0))} == {key(P, [i], nd) for i in range(len(P))}, "vertex set changed", inp)
            o.check(util.close(P[jx], p0, 1e-7, scale), "jx does not map the old vertices to the new ones", inp)
    o.group("cleanup", clean, o.n(300, 3000), limit=60)

    def big(rng, k):
        n = [4096, 5000, 9000][k]
        dim = 2 + k % 2
        p, t = util.rand_mesh(rng, dim, n // (1 if dim == 2 else 4), perm=False)
        j = rng.choice(len(p), 20)
        p = np.vstack((p, p[j]))
        for q, i in enumerate(j):
            t[t == i] = len(p) - len(j) + q
        P, T, _ = gu.fix_mesh(p, t, dim=dim, delete_unused=True)
        o.check({key(p, r, 9) for r in t} == {key(P, r, 9) for r in T}, "large cleanup changes the elements")
        o.check(np.all(util.vol(P, T) >= 0), "orientation")
        o.check(len(np.unique(P, axis=0)) == len(P) == len(np.unique(T)), "vertices")
    o.group("large", big, 3)

    def rows(rng, k):
        a = rng.integers(-3, 4, (int(rng.integers(1, 60)), int(rng.integers(1, 4))))
        if k % 2:
            a = a.astype(float) * 0.25 + 0.0
        b, i, j = gu.unique_rows(a, True, True)
        i, j = np.ravel(i), np.ravel(j)
        o.check(np.array_equal(a[i], b) and np.array_equal(b[j], a), "unique_rows maps", {"a": a})
        o.check(len(np.unique(a, axis=0)) == len(b), "unique_rows count", {"a": a})
        o.check(np.array_equal(gu.unique_rows(a), b), "unique_rows plain", {"a": a})
        o.check(np.array_equal(gu.unique_rows(a, return_index=True)[1].ravel(), i), "unique_rows index", {"a": a})
        o.check(np.array_equal(gu.unique_rows(a, return_inverse=True)[1].ravel(), j), "unique_rows inverse", {"a": a})
    o.group("unique_rows", rows, o.n(40, 300))
