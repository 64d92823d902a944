import numpy as np
import util
import _delaunay as dl
import _delaunay_class as d2
import _delaunay_class3 as d3

BOUNDS = "up to 12 operations on up to 400 points in 2D and 120 in 3D with exactly representable coordinates (exact predicates by integers), one-shot up to 5000 points"
quiet = util.quiet


def det(m):
    """exact determinants of stacks of integer matrices"""
    n = m.shape[-1]
    if n == 1:
        return m[..., 0, 0]
    r = 0
    for k in range(n):
        cols = [j for j in range(n) if j != k]
        r = r + (-1) ** k * m[..., 0, k] * det(m[..., 1:, :][..., cols])
    return r


def hull(P):
    """dim! times the volume of the convex hull"""
    dim = P.shape[1]
    if dim == 2:
        q = sorted(map(tuple, P.tolist()))

        def half(seq):
            out = []
            for p in seq:
                while len(out) > 1 and (out[-1][0] - out[-2][0]) * (p[1] - out[-2][1]) <= (out[-1][1] - out[-2][1]) * (p[0] - out[-2][0]):
                    out.pop()
                out.append(p)
            return out[:-1]
        h = half(q) + half(q[::-1])
        return sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(h, h[1:] + h[:1]))
    from scipy.spatial import ConvexHull
    return round(ConvexHull(P.astype(float)).volume * 6)


def flat(P):
    return np.linalg.matrix_rank((P - P[0]).astype(float)) < P.shape[1]


def delaunay(o, I, T, inp, what):
    """T triangulates the integer points I"""
    dim = I.shape[1]
    T = np.asarray(T)
    o.check(T.ndim == 2 and T.shape[1] == dim + 1 and T.dtype.kind in "iu", f"{what}: cell table {T.shape} {T.dtype}", inp)
    if len(I) < dim + 1 or flat(I):
        return
    o.check(len(T) > 0 and T.min() >= 0 and T.max() < len(I), f"{what}: cell indices out of range", inp)
    Q = I[T]
    v = det(Q[:, 1:] - Q[:, :1])
    o.check(bool((v > 0).all()), f"{what}: a cell is not positively oriented", inp)
    total, want = int(v.sum()), hull(I)
    o.check(total == want if dim == 2 else abs(total - want) <= 2 + 1e-9 * want, f"{what}: the cells do not cover the convex hull ({total} of {want})", inp)
    B = np.array_split(np.arange(len(T)), max(1, len(T) * len(I) // 400000 + 1))
    for b in B:
        D = Q[b][:, None] - I[None, :, None]                        # cell, point, corner, coordinate
        M = np.concatenate((D, (D ** 2).sum(-1, keepdims=True)), -1)
        s = det(M)
        s = s if dim == 2 else -s
        # lifted determinant: positive iff the point is strictly inside
        o.check(not (s > 0).any(), f"{what}: a vertex lies strictly inside the circumscribed circle/sphere of a cell", inp)


def tables(o, tri, cur, sc, inp, what):
    dim = len(next(iter(cur)))
    P = np.asarray(tri.get_finite_vertices())
    T = np.asarray(tri.get_finite_cells())
    o.check(P.shape == (len(cur), dim), f"{what}: vertex table {P.shape} for {len(cur)} distinct points", inp)
    I = np.round(P / sc).astype(np.int64)
    o.check(np.array_equal(I * sc, P) and sorted(map(tuple, I.tolist())) == sorted(cur),
            f"{what}: the vertex table is not the set of distinct points at their current positions", inp)
    o.check(tri.number_of_vertices() == len(P), f"{what}: number of vertices", inp)
    nc = tri.number_of_faces() if dim == 2 else tri.number_of_cells()
    o.check(nc == len(T), f"{what}: number of cells {nc}, table {len(T)}", inp)
    delaunay(o, I, T, inp, what)
    return I


def run(o):
    szs = [s for s in util.sizes(("generation/cpp/delaunay.cpp", "generation/cpp/delaunay_class.cpp", "generation/cpp/delaunay_class3.cpp"), cap=5000) if s]

    def draw(rng, dim, n, lim, taken=()):
        got, out = set(taken), []
        while len(out) < n:
            p = tuple(rng.integers(-lim, lim + 1, dim).tolist())
            if p not in got:
                got.add(p)
                out.append(p)
        return out

    def hist(rng, k):
        dim = 2 + k % 2
        cls = d2.DelaunayTriangulation if dim == 2 else d3.DelaunayTriangulation3
        lim = int(rng.choice([6, 40, 900])) if dim == 2 else int(rng.choice([4, 30, 500]))
        sc = float(rng.choice([1.0, 0.25, 2.0 ** -20, 1024.0]))
        cap = (2 * lim + 1) ** dim // 3
        n = min(cap, int(rng.choice([1, 3, dim + 1, 12, 60, 400 if dim == 2 else 120])))
        tri = cls()
        ops, cur, order = [], set(), None
        steps = int(rng.integers(1, 13)) if n < 100 else int(rng.integers(1, 4))
        for s in range(steps):
            op = "insert" if s == 0 else str(rng.choice(["insert", "move", "move", "remove", "read"]))
            if op == "insert":
                m = n if s == 0 else int(rng.integers(0, 8))
                m = min(m, max(0, cap - len(cur)))
                new = draw(rng, dim, m, lim, cur)
                if new and rng.random() < 0.4:       # repeated points
                    new = new + [new[int(j)] for j in rng.integers(len(new), size=2)] + list(cur)[:2]
                a = (np.array(new, float).reshape(-1, dim) * sc).ravel().tolist()
                before = len(cur)
                r = tri.insert(a)
                cur |= set(new)
                ops.append(("insert", new))
                inp = {"dim": dim, "scale": sc, "operations": ops}
                o.check(r == len(cur) - before, f"insert reports {r} new vertices, {len(cur) - before} are", inp)
            elif op in ("move", "remove"):
                if rng.random() < 0.7 or order is None:
                    order = [tuple(q) for q in np.round(np.asarray(tri.get_finite_vertices()) / sc).astype(int).tolist()]
                if set(order) != cur or not order:
                    continue
                m = int(rng.integers(0, len(order))) if rng.random() < 0.8 else min(len(order), 1)
                ix = rng.permutation(len(order))[:m].tolist()
                if op == "move":
                    new = draw(rng, dim, m, lim, cur) if len(cur) + m <= 2 * cap else []
                    if rng.random() < 0.2:
                        new = [order[i] for i in ix]        # stay where they are
                    if len(new) < m:
                        continue
                    tri.move(ix, (np.array(new, float).reshape(-1, dim) * sc).ravel().tolist())
                    cur = (cur - {order[i] for i in ix}) | set(new)
                    ops.append(("move", ix, new))
                else:
                    if m > len(order) - 1:
                        continue
                    tri.remove(ix)
                    cur = cur - {order[i] for i in ix}
                    ops.append(("remove", ix))
                order = None
            if op == "read" or rng.random() < 0.4:
                inp = {"dim": dim, "scale": sc, "operations": list(ops)}
                if cur:
                    order = [tuple(q) for q in tables(o, tri, cur, sc, inp, f"after {len(ops)} operations").tolist()]
                ops.append(("read",))
        if cur:
            tables(o, tri, cur, sc, {"dim": dim, "scale": sc, "operations": ops}, "at the end")
    o.group("histories", hist, o.n(160, 2000), limit=90)

    def once(rng, k):
        dim = 2 + k % 2
        n = szs[k // 2] if k < 2 * len(szs) else int(rng.integers(dim + 1, 200))
        lim = 900 if dim == 2 else 500
        if k == 3:
            dim, n = 2, 70001        # more points than a 16-bit index can name
        big = n > (1500 if dim == 2 else 300)
        sc = float(rng.choice([1.0, 0.25, 1024.0]))
        I = np.array(draw(rng, dim, n, lim), np.int64)
        if rng.random() < 0.3 and n > 2:
            I = np.concatenate((I, I[rng.integers(n, size=2)]))[rng.permutation(n + 2)]
        A = I * sc
        if k % 5 == 0:
            A = np.asfortranarray(A)
        f = dl._delaunay2 if dim == 2 else dl._delaunay3
        T = np.asarray(f(*[A[:, d] for d in range(dim)]))
        inp = {"points": A}
        if not big:
            U, first = np.unique(I, axis=0, return_inverse=True)
            first = first.ravel()
            delaunay(o, U, first[T] if len(T) else T, inp, "one-shot")
            if len(U) > dim and not flat(U):
                o.check(set(first[T].ravel().tolist()) == set(range(len(U))), "one-shot: a point is missing", inp)
        else:
            o.check(T.shape[1] == dim + 1 and set(np.unique(T).tolist()) <= set(range(len(I))), "one-shot: indices", inp)
            v = det((I[T][:, 1:] - I[T][:, :1]))
            want = hull(np.unique(I, axis=0))
            o.check(bool((v > 0).all()) and abs(int(v.sum()) - want) <= 1e-9 * want + 2, "one-shot: cells do not cover the hull", inp)
    o.group("one-shot", once, o.n(110, 700), limit=60)
