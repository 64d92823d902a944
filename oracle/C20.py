import numpy as np
import fakecomm as fc
import util
from SeismicMesh.decomp import blocker
from SeismicMesh.geometry import utils as gu
from SeismicMesh.migration import migration as mi

BOUNDS = "1..7 ranks, all axes, 2D and 3D, up to 20000 points, random schedules, blocking and buffered sends"


def rowset(a):
    return sorted(map(tuple, np.asarray(a).tolist()))


def run(o):
    def agg(rng, k):
        size = 1 + k % 6
        dim = int(rng.integers(2, 4))
        loc, raw = [], []
        for r in range(size):
            p, t = util.rand_mesh(rng, dim, int(rng.integers(dim + 2, 40)), scale=1.0)
            p = p + r * float(rng.choice([0.0, 1.0]))
            raw.append((p.copy(), t.copy()))
            loc.append((p, t))
        rdv = bool(rng.integers(2))
        inp = {"size": size, "dim": dim, "local": raw}
        w = fc.World(size, rendezvous=rdv, rng=rng)
        try:
            res = w.run(lambda c: util.quiet(mi.aggregate, *loc[c.rank], c, size, c.rank, dim=dim), timeout=40)
        except fc.Deadlock as d:
            o.check(False, f"deadlock: {d}", inp)
            return
        o.check(not w.pending(), f"messages nobody receives: {w.pending()}", inp)
        gp, gt = np.asarray(res[0][0]), np.asarray(res[0][1])
        P, T, off = [], [], 0
        for p, t in raw:
            q, u, _ = gu.fix_mesh(p.copy(), t.copy(), delete_unused=True, dim=dim)
            P.append(q)
            T.append(u + off)
            off += len(q)
        P, T = np.vstack(P), np.vstack(T)
        o.check(gp.shape == P.shape and np.array_equal(gp, P), f"vertices {gp.shape}, want {P.shape} in rank order", inp)
        o.check(gt.shape == T.shape and np.array_equal(gt, T), f"elements {gt.shape}, want {T.shape}, indices shifted by the vertices of the ranks before", inp)
        for (p, t), (q, u) in zip(loc, raw):
            o.check(np.array_equal(p, q) and np.array_equal(t, u), "the local mesh of the caller is modified", inp)
    o.group("gather", agg, o.n(120, 1500), limit=50)

    def cloud(rng, dim, n):
        kind = rng.integers(6)
        s = float(rng.choice([1.0, 1.0, 1e3, 1e-3, 1e6]))
        p = rng.random((n, dim))
        if kind == 1:
            p = np.round(p * 8) / 8
        elif kind == 2:
            p = p - 0.5
        elif kind == 3:
            p = np.array(np.meshgrid(*[np.linspace(0, 1, max(2, int(round(n ** (1 / dim)))))] * dim)).reshape(dim, -1).T.copy()
        elif kind == 4:
            p = p * np.array([1.0, 100.0, 3.0])[:dim] - 7.0
        elif kind == 5:
            p = p * 0.1 + rng.integers(-5, 6, dim)
        return p * s

    def blk(rng, k):
        dim = 2 + k % 2
        axis = int(rng.integers(dim))
        nb = int(rng.integers(1, 8))
        n = int(rng.choice([40, 100, 400, 3000 if k % 4 else 20000]))
        p = cloud(rng, dim, n)
        if len(p) // nb <= 1:
            return
        p0 = p.copy()
        cut = {0: 1, 1: 0, 2: 2}[axis]
        lo, hi = p[:, cut].min(), p[:, cut].max()
        tol = 1e-9 * max(np.abs(p).max(), 1e-300) + (1e-13 if np.abs(p).max() < 1 else 0)
        w = (hi - lo) / nb
        # empty slabs are dropped by design: not the subject
        occ = [np.any((p[:, cut] > lo + j * w + tol) & (p[:, cut] < lo + (j + 1) * w - tol)) for j in range(nb)]
        inp = {"p": p, "blocks": nb, "axis": axis}
        bl, ex = blocker(points=p, rank=0, num_blocks=nb, axis=axis)
        o.check(np.array_equal(p, p0), "the points are modified", inp)
        o.check(len(bl) == len(ex), "one extent per block", inp)
        for b, e in zip(bl, ex):
            b = np.asarray(b)
            o.check(len(e) == 2 * dim and np.array_equal(e, [*b.min(0), *b.max(0)]), f"extent {e} of a block", inp)
        allp = np.vstack([np.asarray(b) for b in bl])
        o.check(set(rowset(p)) == set(rowset(allp)), "points are lost (or invented) by the blocks", inp)
        mult = util.counts(rowset(p))
        for b in bl:
            m = util.counts(rowset(b))
            o.check(all(m[x] == mult.get(x, 0) for x in m), "a block does not hold each of its points once", inp)
        if not all(occ):
            return
        o.check(len(bl) == nb, f"{len(bl)} blocks for {nb} occupied slabs", inp)
        for j, b in enumerate(bl):
            x = np.asarray(b)[:, cut]
            o.check(np.all(x >= lo + j * w - tol) and np.all(x <= lo + (j + 1) * w + tol),
                    f"block {j} holds a point outside its slab [{lo + j * w}, {lo + (j + 1) * w}]: {x.min()}, {x.max()}", inp)
            ins = p[(p[:, cut] > lo + j * w + tol) & (p[:, cut] < lo + (j + 1) * w - tol)]
            o.check(set(rowset(ins)) <= set(rowset(b)), f"a point inside slab {j} is not in block {j}", inp)
    o.group("blocks", blk, o.n(150, 1500), limit=50)

    def loc(rng, k):
        size = 1 + k % 6
        dim = int(rng.integers(2, 4))
        blocks = [rng.random((int(rng.integers(1, 50)), dim)) + r for r in range(size)]
        ext = [[*b.min(0), *b.max(0)] for b in blocks]
        w = fc.World(size, rendezvous=bool(rng.integers(2)), rng=rng)
        inp = {"size": size, "dim": dim, "lengths": [len(b) for b in blocks]}
        if size == 1:
            return

        def main(c):
            return mi.localize_points([b.copy() for b in blocks] if c.rank == 0 else None,
                                      [list(e) for e in ext] if c.rank == 0 else None, c, dim)
        try:
            res = w.run(main, timeout=30)
        except fc.Deadlock as d:
            o.check(False, f"deadlock: {d}", inp)
            return
        o.check(not w.pending(), "messages nobody receives", inp)
        for r in range(size):
            o.check(np.array_equal(np.asarray(res[r][0]), blocks[r]), f"rank {r} does not receive its block", inp)
            o.check(np.array_equal(np.asarray(res[r][1]), ext), f"rank {r} does not receive the extents", inp)
    o.group("distribution", loc, o.n(60, 600), limit=30)
