import threading
from fractions import Fraction

import numpy as np
import fakecomm as fc
import gen
import meshes as me
import util
import SeismicMesh as sm
import _cpputils as cu
from SeismicMesh.generation import mesh_generator as mg
from SeismicMesh.migration import migration as mi

BOUNDS = "1..8 ranks, blocking and buffered sends, random schedules, empty and full messages; meshes up to 3000 points; parallel generation with 2 and 3 ranks"
quiet = util.quiet


def circum(q):
    A = 2 * (q[1:] - q[0])
    b = (q[1:] ** 2).sum(1) - (q[0] ** 2).sum()
    c = np.linalg.solve(A, b)
    return c, np.sqrt(((q[0] - c) ** 2).sum())


def hits(c, r, lo, hi):
    """sphere against box: True, False, or None when too close to call"""
    near = np.sqrt((np.maximum(np.maximum(lo - c, c - hi), 0) ** 2).sum())
    far = np.sqrt((np.maximum(np.abs(lo - c), np.abs(hi - c)) ** 2).sum())
    m = 1e-6 * (r + np.abs(c).max() + 1e-9)
    if abs(near - r) < m or abs(far - r) < m:
        return None
    return bool(near < r < far)


def flat(q):
    """exactly no volume"""
    r = [[Fraction(float(b)) - Fraction(float(a)) for a, b in zip(q[0], x)] for x in q[1:]]
    if len(r) == 2:
        return r[0][0] * r[1][1] == r[0][1] * r[1][0]
    (a, b, c), (d, e, f), (g, h, i) = r
    return a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g) == 0


def marks(p, t, le, re):
    """0: for the rank below, 1: above, -1: stays, None: undecided numerically"""
    n, dim = p.shape
    out = [-1] * n
    around = [[] for _ in range(n)]
    for e, row in enumerate(t):
        for v in row:
            around[v].append(e)
    res = []
    for e, row in enumerate(t):
        q = p[row]
        lo, hi = q.min(0), q.max(0)
        if not any(np.all(lo <= re[k]) and np.all(hi >= le[k]) for k in (0, 1)):
            res.append((False, False))
            continue
        v = abs(np.linalg.det(q[1:] - q[0]))
        s = np.abs(q - q[0]).max() ** dim
        if v < 1e-6 * s:
            res.append((False, False) if flat(q) else (None, None))
            continue
        c, r = circum(q)
        res.append(tuple(hits(c, r, le[k], re[k]) for k in (0, 1)))
    for v in range(n):
        for e in around[v]:
            a, b = res[e]
            if a is None or (not a and b is None):
                out[v] = None
                break
            if a:
                out[v] = 0
                break
            if b:
                out[v] = 1
                break
    return out


def table(o, ex, p, want, inp):
    n, dim = p.shape
    ex = np.asarray(ex)
    o.check(ex.shape == (n + 1, dim + 1), f"table shape {ex.shape}", inp)
    nb, na = int(ex[0, 0]), int(ex[0, 1])
    o.check(0 <= nb and 0 <= na and nb + na <= n, f"counts {nb} {na}", inp)
    rows = ex[1:1 + nb + na]
    ids = rows[:, dim]
    o.check(np.array_equal(ids, np.round(ids)) and np.all((ids >= 0) & (ids < n)), "an index is not a vertex", inp)
    ids = ids.astype(int)
    o.check(len(set(ids.tolist())) == len(ids), "a vertex is listed twice", inp)
    o.check(np.array_equal(rows[:, :dim], p[ids]), "coordinates do not belong to the index", inp)
    b, a = set(ids[:nb].tolist()), set(ids[nb:].tolist())
    for v in range(n):
        if want[v] is None:
            continue
        got = 0 if v in b else 1 if v in a else -1
        o.check(got == want[v], f"vertex {v} is exported to {got}, marked for {want[v]}", {**inp, "vertex": v})


def run(o):
    def exch(rng, k):
        size = int(rng.integers(2, 9)) if k > 3 else 2
        dim = int(rng.integers(2, 4))
        mode = rng.integers(4)
        ex, sent = [], []
        for r in range(size):
            n = int(rng.integers(0, 40))
            nb = 0 if r == 0 else int(rng.integers(0, n + 1))
            na = 0 if r == size - 1 else int(rng.integers(0, n - nb + 1))
            if mode == 1 and rng.random() < 0.5:
                nb = na = 0
            if mode == 2:
                na, nb = (n if r < size - 1 else 0), 0
            if mode == 3:
                nb, na = (n if r else 0), 0
            e = np.full((n + 1, dim + 1), -1.0)
            e[0, :] = 0
            e[0, 0], e[0, 1] = nb, na
            e[1:, :dim] = rng.random((n, dim))
            e[1:, dim] = np.arange(n)
            e[1 + nb + na:, :] = -1
            ex.append(e)
            sent.append((e[1:1 + nb, :dim].copy(), e[1 + nb:1 + nb + na, :dim].copy()))
        rdv = bool(rng.integers(2))
        w = fc.World(size, rendezvous=rdv, rng=rng)
        inp = {"size": size, "dim": dim, "counts": [e[0, :2].tolist() for e in ex], "blocking": rdv}
        keep = [e.copy() for e in ex]
        try:
            res = w.run(lambda c: mi.exchange(c, c.rank, size, ex[c.rank], dim=dim), timeout=30)
        except fc.Deadlock as d:
            o.check(False, f"deadlock: {d}", inp)
            return
        o.check(not w.pending(), f"messages nobody receives: {w.pending()}", inp)
        for r in range(size):
            o.check(np.array_equal(ex[r], keep[r]), "the export table is modified", inp)
            z = [(s, d) for kind, s, d, *_ in w.log if kind == "send" and s == r]
            want = [(r, x) for x in (r - 1, r + 1) if 0 <= x < size]
            o.check(sorted(z) == want, f"rank {r} sends {z}, want one message to each of {want}", inp)
            up = sent[r + 1][0] if r + 1 < size else np.empty((0, dim))
            dn = sent[r - 1][1] if r > 0 else np.empty((0, dim))
            g = np.asarray(res[r])
            o.check(g.shape == (len(up) + len(dn), dim) and np.array_equal(g, np.vstack((up, dn))),
                    f"rank {r} receives {g.shape}, want {len(up)} from above then {len(dn)} from below", inp)
    o.group("exchange", exch, o.n(150, 2500), limit=60)

    def tab(rng, k):
        dim = 2 + k % 2
        n = int(rng.choice([5, 12, 40, 150 if dim == 2 else 80]))
        if k % 9 == 8:
            n = 1500 if dim == 2 else 400
        sc = float(rng.choice([1.0, 1000.0, 0.01]))
        p, t = util.delaunay(rng, n, dim, sc)
        axis = int(rng.integers(dim))
        size = int(rng.integers(2, 5))
        rank = int(rng.integers(size))
        # extents of slabs along the axis, the local points fill one of them
        lim = np.arange(size + 1.0) - rank
        ext = []
        pad = float(rng.choice([0.0, 0.1, 0.3]))
        for r in range(size):
            lo, hi = np.zeros(dim), np.ones(dim)
            lo[axis], hi[axis] = lim[r] - pad, lim[r + 1] + pad
            if rng.random() < 0.3:
                q = int(rng.integers(dim))
                if q != axis:
                    lo[q], hi[q] = 0.2, 0.6
            ext.append([*(lo * sc), *(hi * sc)])
        far = [[-999999999.0] * dim, [-999999998.0] * dim]
        le = [ext[rank - 1][:dim] if rank else far[0], ext[rank + 1][:dim] if rank < size - 1 else far[0]]
        re = [ext[rank - 1][dim:] if rank else far[1], ext[rank + 1][dim:] if rank < size - 1 else far[1]]
        p0, t0, e0 = p.copy(), t.copy(), [list(e) for e in ext]
        inp = {"p": p, "t": t, "extents": ext, "rank": rank, "size": size, "dim": dim}
        ex = mi.enqueue(ext, p, t, rank, size, dim=dim)
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0) and e0 == ext, "inputs are modified", inp)
        want = marks(p, t, np.array(le), np.array(re))
        table(o, ex, p, want, inp)
        f = cu.where_to2 if dim == 2 else cu.where_to3
        table(o, f(p, t, np.array(le), np.array(re), rank), p, want, inp)
    o.group("export table", tab, o.n(90, 900), limit=60)

    def full(rng, k):
        """every point is exported"""
        dim = 2 + k % 2
        n = int(rng.integers(dim + 2, 60))
        p, t = util.delaunay(rng, n, dim, 1.0)
        up = bool(rng.integers(2))
        box, far = ([-9.0] * dim, [9.0] * dim), ([-999999999.0] * dim, [-999999998.0] * dim)
        # the box cuts every circumscribed sphere: it ends inside the cloud
        ext = [[0.0] * dim + [1.0] * dim] * 3
        rank = 1 if k % 3 else (0 if up else 2)
        inp = {"p": p, "t": t, "rank": rank}
        ex = mi.enqueue(ext, p, t, rank, 3, dim=dim)
        l, r = np.array(ext[0][:dim]), np.array(ext[0][dim:])
        F = (np.array(far[0]), np.array(far[1]))
        le = [l if rank else F[0], l if rank < 2 else F[0]]
        re = [r if rank else F[1], r if rank < 2 else F[1]]
        table(o, ex, p, marks(p, t, np.array(le), np.array(re)), inp)
    o.group("everything exported", full, o.n(30, 200), limit=20)

    def flats(rng, k):
        """elements without volume among the others"""
        dim = 2 + k % 2
        m = 4 if dim == 2 else 3
        p = np.stack(np.meshgrid(*[np.arange(m)] * dim, indexing="ij"), -1).reshape(-1, dim) / 4.0
        p = p[rng.permutation(len(p))]
        t = me.distinct_rows(rng, int(rng.integers(len(p), 3 * len(p))), len(p), dim + 1)
        keep = np.array([np.ptp(p[r], axis=0).max() <= 0.5 or flat(p[r]) for r in t])
        t = t[keep]
        if not len(t):
            return
        ext = [[x] * dim + [y] * dim for x, y in ((0.0, 1.0), (0.0, 1.0), (0.55, 1.5))]
        ext[0] = [-1.0] * dim + [0.15] * dim
        rank = k % 3
        inp = {"p": p, "t": t, "extents": ext, "rank": rank}
        ex = mi.enqueue(ext, p, t, rank, 3, dim=dim)
        far = [[-999999999.0] * dim, [-999999998.0] * dim]
        le = [ext[rank - 1][:dim] if rank else far[0], ext[rank + 1][:dim] if rank < 2 else far[0]]
        re = [ext[rank - 1][dim:] if rank else far[1], ext[rank + 1][dim:] if rank < 2 else far[1]]
        table(o, ex, p, marks(p, t, np.array(le), np.array(re)), inp)
    o.group("flat elements", flats, o.n(60, 600), limit=20)

    def par(rng, k):
        size = 2 + k % 2
        d3 = k % 4 == 3
        dom = sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0)) if d3 else sm.Rectangle((0.0, 1.0, 0.0, 1.0))
        dim = 3 if d3 else 2
        h = 0.16 if d3 else float(rng.choice([0.05, 0.08]))
        axis = int(rng.integers(dim))
        w = fc.World(size, rendezvous=bool(rng.integers(2)), rng=rng)
        runs = {}

        def main(c):
            runs[threading.get_ident()] = c.rank
            return sm.generate_mesh(dom, h, comm=c, max_iter=4, verbose=0, axis=axis, seed=int(k))
        inp = {"size": size, "axis": axis, "h": h, "dim": dim}
        with gen.watch() as wa:
            rec = wa.rec(dim)
            rec_call = rec.__call__

            class R(type(rec)):
                def __call__(self, *a):
                    d = rec_call(*a)
                    d.rank = runs[threading.get_ident()]
                    return d
            rec.__class__ = R
            try:
                quiet(w.run, main, timeout=100)
            except fc.Deadlock as e:
                o.check(False, f"deadlock: {e}", inp)
                return
        o.check(not w.pending(), f"messages nobody receives: {w.pending()}", inp)
        for r in range(size):
            ds = [d for d in rec.runs if d.rank == r]
            o.check(len(ds) >= 1, "no triangulation", inp)
            for a, b in zip(ds, ds[1:]):
                V = [e[1] for e in a.ev if e[0] == "vertices"]
                own = V[0]
                nxt = b.ev[0][1].reshape(-1, dim)
                o.check(len(nxt) == len(own), f"rank {r}: {len(own)} own vertices, {len(nxt)} are kept for the next iteration"
                        f" ({len(V[-1]) - len(own)} ghosts were added)", inp)
                mv = np.sqrt(((nxt - own) ** 2).sum(1))
                o.check(np.median(mv) < h, f"rank {r}: the vertices kept are not the own ones", inp)
    o.group("parallel generation", par, o.n(6, 40), limit=70)
