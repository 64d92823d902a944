import contextlib
import io

import numpy as np
import meshes as me
import util
from SeismicMesh.geometry import utils as gu

BOUNDS = "triangle meshes up to 20000 elements (grids, Delaunay, holes), 0..60 iterations, tolerances, any fixed points"


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def nbrs(n, t):
    s = [set() for _ in range(n)]
    for a, b, c in t.tolist():
        s[a] |= {b, c}
        s[b] |= {a, c}
        s[c] |= {a, b}
    return s


def some_mesh(rng, k, big=False):
    kind = k % 4
    if kind == 0:
        nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
        p, t = util.grid2(nx, ny, rng, 0.3)
    elif kind == 1:
        nx, ny = int(rng.integers(4, 12)), int(rng.integers(4, 12))
        p, t = util.grid2(nx, ny, rng, 0.3)
        c = p[t].mean(1)
        hole = (np.abs(c[:, 0] - nx / 2) < 1) & (np.abs(c[:, 1] - ny / 2) < 1)
        t = t[~hole]
    else:
        p, t = util.rand_mesh(rng, 2, int(rng.integers(4, 80)), drop=False, unused=False, scale=util.scale(rng))
    u, inv = np.unique(t, return_inverse=True)
    p, t = p[u], inv.reshape(t.shape)
    q = rng.permutation(len(p))
    iq = np.empty_like(q)
    iq[q] = np.arange(len(q))
    return p[q], iq[t]


def run(o):
    def iterated(rng, k):
        p, t = some_mesh(rng, k)
        n = len(p)
        sc = np.abs(p).max() + 1e-30
        mi = int(rng.choice([0, 1, 1, 2, 3, 7, 20, 60]))
        tol = float(rng.choice([-1e30, 0.0, 0.01, 0.5, 1e-6]))
        pf = None
        nf = int(rng.integers(0, 4))
        if nf:
            pf = p[rng.choice(n, min(nf, n), replace=False)] + rng.uniform(-1e-3, 1e-3, (min(nf, n), 2)) * sc
            if rng.random() < 0.3:
                pf = np.vstack((pf, rng.uniform(-1, 1, 2) * sc))
        p0, t0 = p.copy(), t.copy()
        inp = {"p": p0, "t": t0, "max_iter": mi, "tol": tol, "pfix": pf}
        kw = {} if pf is None else {"pfix": pf if rng.random() < 0.5 else [x for x in pf]}
        q, tt = quiet(gu.laplacian2, p, me.forms(rng, t), max_iter=mi, tol=tol, verbose=int(rng.integers(0, 2)), **kw)
        q = np.asarray(q)
        o.check(np.array_equal(tt, t0), "connectivity changed", inp)
        o.check(np.array_equal(p, p0), "vertices of the caller changed", inp)
        fixed = {x for r in me.boundary(t, 2) for x in r}
        if pf is not None:
            fixed |= {int(np.argmin(((p0 - x) ** 2).sum(1))) for x in pf}
        fx = sorted(fixed)
        o.check(np.array_equal(q[fx], p0[fx]), "a boundary or fixed vertex moved", inp)
        # reference iteration
        nb = nbrs(n, t)
        x = p0.copy()
        e = np.array(sorted({(min(a, b), max(a, b)) for r in t.tolist() for a, b in ((r[0], r[1]), (r[1], r[2]), (r[2], r[0]))}))
        eps = np.finfo(float).eps
        deg = np.zeros((n, 1))
        E2 = np.vstack((t[:, [0, 1]], t[:, [1, 2]], t[:, [2, 0]]))
        np.add.at(deg, E2[:, 0], 1)
        np.add.at(deg, E2[:, 1], 1)
        cand = [x.copy()]
        for it in range(mi):
            # neighbours joined by two triangles count twice: interior vertices see each neighbour equally often
            s = np.zeros_like(x)
            np.add.at(s, E2[:, 0], x[E2[:, 1]])
            np.add.at(s, E2[:, 1], x[E2[:, 0]])
            y = s / deg
            y[fx] = x[fx]
            x = y
            cand.append(x.copy())
        d = [np.abs(c - q).max() for c in cand]
        b = int(np.argmin(d))
        o.check(d[b] <= 1e-9 * sc, f"result is not an iterate of neighbour averaging (error {d[b]})", inp)
        if tol <= -1e29 and mi:
            o.check(d[mi] <= 1e-9 * sc, f"stopped after {b} of {mi} averaging steps although the tolerance was not reached", inp)
        if mi and len(fx) < n:
            o.check(d[b] <= 1e-9 * sc and (b >= 1 or d[1] <= 1e-9 * sc), "no averaging step was made", inp)
        for i in set(range(n)) - fixed:
            w = np.mean(p0[sorted(nb[i])], 0)
            if mi == 1:
                o.check(np.abs(q[i] - w).max() <= 1e-9 * sc, f"vertex {i} is not the average of its neighbours", inp)
    o.group("iterated", iterated, o.n(200, 2000), limit=60)

    def direct(rng, k):
        p, t = some_mesh(rng, k)
        n = len(p)
        if n < 4:
            return
        sc = np.abs(p).max()
        p0, t0 = p.copy(), t.copy()
        inp = {"p": p0, "t": t0}
        q, tt = quiet(gu.laplacian2_fixed_point, p, t)
        q = np.asarray(q)
        o.check(np.array_equal(tt, t0) and np.array_equal(p, p0), "inputs changed", inp)
        fx = sorted({x for r in me.boundary(t, 2) for x in r})
        rhs = np.zeros((n, 2))
        rhs[fx] = p0[fx]
        lim = 5e-5 * np.linalg.norm(rhs, axis=0).max()      # relative residual of the iterative solver
        o.check(np.abs(q[fx] - p0[fx]).max() <= lim, "a boundary vertex moved", inp)
        nb = nbrs(n, t)
        free = [i for i in range(n) if i not in set(fx)]
        for i in free:
            e = np.abs(q[i] - q[sorted(nb[i])].mean(0)).max()
            o.check(e <= lim, f"vertex {i} is not the average of its neighbours (error {e}, limit {lim})", inp)
    o.group("direct", direct, o.n(80, 600), limit=60)

    def big(rng, k):
        nx = [40, 72, 100][k]
        p, t = util.grid2(nx, nx, rng, 0.2)
        p0 = p.copy()
        q, _ = quiet(gu.laplacian2, p, t, max_iter=1, tol=-1e30)
        fx = np.array(sorted({x for r in me.boundary(t, 2) for x in r}))
        o.check(np.array_equal(q[fx], p0[fx]), "boundary moved")
        nb = nbrs(len(p), t)
        fr = np.setdiff1d(np.arange(len(p)), fx)
        w = np.array([p0[sorted(nb[i])].mean(0) for i in fr])
        o.check(np.abs(q[fr] - w).max() < 1e-9, "not the average")
        q, _ = quiet(gu.laplacian2_fixed_point, p, t)
        o.check(np.abs(q[fx] - p0[fx]).max() < 1e-2, "boundary moved (direct)")
        w = np.array([q[sorted(nb[i])].mean(0) for i in fr])
        o.check(np.abs(q[fr] - w).max() < 1e-2, "not the average (direct)")
    o.group("large", big, 3)

    def disjoint(rng, k):
        p, t = some_mesh(rng, 2)
        p = np.vstack((p, rng.random((1, 2))))
        q, tt = quiet(gu.laplacian2, p, t)
        o.check(np.array_equal(np.asarray(q), p) and np.array_equal(tt, t), "mesh with an unused vertex must be returned unchanged", {"p": p, "t": t})
    o.group("disjoint", disjoint, 5)
