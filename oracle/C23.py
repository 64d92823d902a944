import contextlib
import io

import numpy as np
import meshes as me
import util
from SeismicMesh.geometry import utils as gu

BOUNDS = "2D and 3D meshes up to a few thousand elements, all thresholds in [0,1], extents anywhere"


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def qual(p, t):
    q = p[t[:, :3]]
    a, b, c = (np.linalg.norm(q[:, i] - q[:, j], axis=1) for i, j in ((0, 1), (1, 2), (2, 0)))
    with np.errstate(all="ignore"):
        s = (a + b + c) / 2
        area = np.sqrt(np.maximum(0, s * (s - a) * (s - b) * (s - c)))
        return 2 * (area / s) * (4 * area) / (a * b * c)


def key(p, r):
    return tuple(sorted(tuple((np.round(x, 9) + 0.0).tolist()) for x in p[r]))


def run(o):
    szs = util.sizes(me.GF, cap=9000)

    def delb(rng, k):
        n = int(rng.choice([0, 0, 0, 60, 400])) or int(rng.integers(4, 30))
        p, t = util.rand_mesh(rng, 2, n)
        q = qual(p, t)
        thr = float(rng.choice([0.1, 0.0, 0.3, 0.5, 0.9, 1.1, rng.random()]))
        if rng.random() < 0.3:
            j = int(rng.integers(len(q)))
            thr = float(q[j]) + (1e-6 if rng.random() < 0.5 else -1e-6)
        if np.abs(q - thr).min() < 1e-9:
            return
        bv = {x for r in me.boundary(t, 2) for x in r}
        tb = np.array([any(x in bv for x in r) for r in t.tolist()])
        keep = ~(tb & (q < thr))
        if not keep.any():
            return
        p0, t0 = p.copy(), t.copy()
        inp = {"p": p, "t": t, "min_qual": thr}
        kw = {} if thr == 0.1 and rng.random() < 0.5 else {"min_qual": thr}
        P, T = quiet(gu.delete_boundary_entities, p, me.forms(rng, t), verbose=int(rng.integers(0, 2)), **kw)
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0), "inputs modified", inp)
        got, want = sorted(key(P, r) for r in T), sorted(key(p, r) for r in t[keep])
        o.check(got == want, f"{len(got)} elements left, {len(want)} expected", inp)
        o.check(len(np.unique(T)) == len(P), "unused vertices left", inp)
        o.check(np.all(util.vol(P, T) >= 0), "orientation", inp)
    o.group("boundary clean-up", delb, o.n(200, 2000), limit=40)

    def ext(rng, k):
        dim = 2 + k % 2
        n = szs[(k // 2) % len(szs)] if k < 2 * len(szs) else int(rng.integers(1, 40))
        sc = util.scale(rng)
        nv = max(dim + 1, n)
        p = rng.uniform(-1, 1, (nv, dim)) * sc
        t = me.distinct_rows(rng, n, nv, dim + 1) if n else np.zeros((0, dim + 1), int)
        lo = rng.uniform(-1.2, 0.5, dim) * sc
        hi = lo + rng.uniform(0.1, 1.2, dim) * sc
        if rng.random() < 0.3 and n:       # vertices exactly on the extents count as inside
            j = rng.integers(0, nv, dim)
            for d in range(dim):
                hi[d] = max(p[j[d], d], lo[d] + 1e-3 * sc)
        e = np.concatenate((lo, hi))
        e = list(e) if rng.random() < 0.5 else e
        p0, t0 = p.copy(), t.copy()
        inp = {"p": p, "t": t, "extent": np.array(e)}
        V, T, jx = gu.remove_external_entities(p, me.forms(rng, t) if n else t, e, dim=dim)
        out = ((p < lo) | (p > hi)).any(1)
        near = np.minimum(np.abs(p - lo), np.abs(p - hi)).min(1) < 1e-13 * sc
        want = t[~out[t].all(1)]
        if near.any() and not np.array_equal(T, want):
            out2 = out & ~near
            want = t[~out2[t].all(1)]
        o.check(np.array_equal(T, want), f"{dim}D: {len(T)} elements kept, {len(want)} expected", inp)
        o.check(np.array_equal(V, p0) and np.array_equal(jx, np.arange(len(p0))), "vertices or map changed", inp)
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0), "inputs modified", inp)
    o.group("external elements", ext, o.n(160, 1500), limit=40)

    def lint(rng, k):
        nx, ny = int(rng.integers(3, 9)), int(rng.integers(3, 9))
        p, t = util.grid2(nx, ny, rng, 0.25)
        many = k % 2 == 1
        bad = int(rng.integers(2, 7)) if many else int(rng.integers(0, 3))
        extra = []
        few = rng.integers(len(t), size=2)
        for _ in range(bad):
            # an overlapping element: corner moved towards the centroid of a neighbour
            i = int(rng.choice(few)) if many else int(rng.integers(len(t)))
            c = p[t[i]].mean(0)
            a, b = t[i][rng.choice(3, 2, replace=False)]
            u = float(rng.uniform(0.05, 0.8)) if many else 0.5
            p = np.vstack((p, c * (1 - u) + u * p[[x for x in t[i] if x not in (a, b)][0]]))
            extra.append([a, b, len(p) - 1])
        if extra:
            t = np.vstack((t, extra))
        t = t[rng.permutation(len(t))]
        thr = float(rng.choice([0.1, 0.0, 0.3]))
        inp = {"p": p, "t": t, "min_qual": thr}
        q = qual(p, t)
        inter = quiet(gu.do_any_overlap, p, t)
        kill = set()
        for a, b in inter:
            if abs(q[a] - q[b]) < 1e-9:
                return
            kill.add(a if q[a] < q[b] else b)
        t1 = np.array([r for i, r in enumerate(t.tolist()) if i not in kill])
        if len(t1) == 0:
            return
        q1 = qual(p, t1)
        if np.abs(q1 - thr).min() < 1e-9:
            return
        bv = {x for r in me.boundary(t1, 2) for x in r}
        keep = ~(np.array([any(x in bv for x in r) for r in t1.tolist()]) & (q1 < thr))
        if not keep.any():
            return
        p0, t0 = p.copy(), t.copy()
        P, T = quiet(gu.linter, p, t, min_qual=thr)
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0), "inputs modified", inp)
        got, want = sorted(key(P, r) for r in T), sorted(key(p, r) for r in t1[keep])
        o.check(got == want, f"linter left {len(got)} elements, {len(want)} expected ({len(kill)} overlapping)", inp)
    o.group("linter", lint, o.n(120, 900), limit=60)

    def lint3(rng, k):
        p, t = util.rand_mesh(rng, 3, int(rng.integers(6, 20)), drop=False, unused=False)
        t = t[np.abs(util.vol(p, t)) > 1e-4]
        p0, t0 = p.copy(), t.copy()
        i = int(rng.integers(len(t)))
        # overlapping copy with one vertex pulled inwards
        v = p[t[i]].mean(0)
        P = np.vstack((p, v * 0.3 + 0.7 * p[t[i][3]]))
        T = np.vstack((t, [t[i][0], t[i][1], t[i][2], len(p)]))
        inter = quiet(gu.do_any_overlap, P, T, dim=3)
        q = qual(P, T)
        kill = set()
        for a, b in inter:
            if abs(q[a] - q[b]) < 1e-9:
                return
            kill.add(a if q[a] < q[b] else b)
        want = sorted(key(P, r) for j, r in enumerate(T.tolist()) if j not in kill)
        A, B = quiet(gu.linter, P, T, dim=3)
        o.check(sorted(key(A, r) for r in B) == want, "3D linter: wrong elements left", {"p": P, "t": T})
    o.group("linter 3D", lint3, o.n(15, 100), limit=40)
