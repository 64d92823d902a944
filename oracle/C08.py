import itertools
import math

import numpy as np
import meshes as me
import util
from SeismicMesh.geometry import utils as gu
import _fast_geometry as fg
import _delaunay as dl

BOUNDS = "meshes up to 20000 elements, coordinates of magnitude 1e-3..1e6, integer matrices with all sign patterns"


def leibniz(m):
    n = len(m)
    s = 0
    for q in itertools.permutations(range(n)):
        sg = 1
        for i in range(n):
            for j in range(i):
                if q[j] > q[i]:
                    sg = -sg
        x = 1
        for i in range(n):
            x *= int(m[i][q[i]])
        s += sg * x
    return s


def soup(rng, dim, n, sc):
    """n well shaped random simplices with random orientation and shared vertices"""
    nv = max(dim + 1, int(n * rng.choice([0.5, 1, 2])))
    while True:
        p = rng.uniform(-1, 1, (nv, dim)) * sc
        t = np.array([]).reshape(0, dim + 1).astype(int)
        for _ in range(50):
            c = me.distinct_rows(rng, max(n, 4), nv, dim + 1)
            c = c[np.abs(util.vol(p, c)) > 1e-3 * sc ** dim]
            t = np.vstack((t, c))
            if len(t) >= n:
                return p, me.chain(rng, t[:n])
        nv += 3


def run(o):
    szs = util.sizes(me.GF + ("generation/cpp/delaunay.cpp",))
    for dim in (2, 3):
        def meas(rng, k, dim=dim):
            n = max(1, szs[k % len(szs)]) if k < len(szs) else int(rng.integers(1, 40))
            sc = util.scale(rng)
            p, t = soup(rng, dim, n, sc)
            if rng.random() < 0.3:
                p = p + sc * rng.uniform(-3, 3, dim)
            tt = me.forms(rng, t)
            p0, t0 = p.copy(), t.copy()
            inp = {"p": p, "t": t, "dim": dim}
            v = np.asarray(gu.simp_vol(p, tt))
            w = util.vol(p, t)
            ref = np.abs(p).max() ** dim
            o.check(v.shape == (n,) and np.all(np.abs(v - w) <= 1e-10 * ref), f"simp_vol {dim}D differs from the determinant formula", inp)
            c = np.asarray(gu.get_centroids(p, tt, dim=dim))
            o.check(util.close(c, p[t].mean(1), 1e-12, np.abs(p).max()), f"get_centroids {dim}D", inp)
            # radius-edge ratio
            r = np.asarray(gu.calc_re_ratios(p, tt, dim=dim))
            q = p[t]
            A = 2 * (q[:, 1:] - q[:, :1])
            b = (q[:, 1:] ** 2).sum(2) - (q[:, :1] ** 2).sum(2)
            cc = np.linalg.solve(A, b[..., None])[..., 0]
            R = np.sqrt(((cc - q[:, 0]) ** 2).sum(1))
            E = np.array([[np.linalg.norm(q[:, i] - q[:, j], axis=1)] for i, j in itertools.combinations(range(dim + 1), 2)]).min(0)[0]
            o.check(r.shape == (n,), f"calc_re_ratios {dim}D: shape {r.shape}", inp)
            bad = np.nonzero(~(np.abs(r - R / E) <= 1e-6 * (1 + R / E)))[0]
            o.check(len(bad) == 0, f"calc_re_ratios {dim}D: element {bad[:1]} of {n} differs", inp)
            o.check(np.array_equal(p, p0) and np.array_equal(tt, t0), "inputs modified", inp)
            if dim == 2:
                s = np.asarray(gu.simp_qual(p, tt))
                a_, b_, c_ = (np.linalg.norm(q[:, i] - q[:, j], axis=1) for i, j in ((0, 1), (1, 2), (2, 0)))
                S = (a_ + b_ + c_) / 2
                area = np.abs(w)
                want = 2 * (area / S) / (a_ * b_ * c_ / (4 * area))
                o.check(np.all(np.abs(s - want) <= 1e-7), "simp_qual differs from 2r/R", inp)
                o.check(np.all((s >= 0) & (s <= 1 + 1e-12)), "simp_qual out of [0,1]", inp)
                pt = t[:, rng.permutation(3)]
                o.check(np.all(np.abs(gu.simp_qual(p, pt) - s) <= 1e-9), "simp_qual depends on vertex order", inp)
        o.group(f"measures {dim}D", meas, o.n(90, 900), limit=60)

    def special(rng, k):
        sc = util.scale(rng)
        p = np.array([[0, 0], [1, 0], [0.5, math.sqrt(3) / 2]]) * sc
        a = rng.uniform(0, 7)
        p = p @ np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]])
        o.check(abs(gu.simp_qual(p, np.array([[0, 1, 2]]))[0] - 1) < 1e-9, "equilateral triangle has quality 1", {"p": p})
        o.check(abs(gu.calc_re_ratios(p, np.array([[0, 1, 2]]))[0] - 1 / math.sqrt(3)) < 1e-9, "equilateral ratio", {"p": p})
        p1 = np.sort(rng.random((3, 1)), 0)
        t1 = np.array([[0, 1], [2, 1]])
        o.check(util.close(np.ravel(gu.simp_vol(p1, t1)), [p1[1, 0] - p1[0, 0], p1[1, 0] - p1[2, 0]]), "simp_vol 1D", {"p": p1})
    o.group("special", special, o.n(30, 100))

    def det(rng, k):
        kind = k % 5
        hi = [2, 4, 10, 100, 1000][int(rng.integers(5))]
        for n, f in ((3, fg.calc_3x3determinant), (4, fg.calc_4x4determinant)):
            m = rng.integers(-hi, hi + 1, (n, n))
            if kind == 1:       # permutation matrix with weights: isolates one Leibniz term
                m = np.zeros((n, n), int)
                m[np.arange(n), rng.permutation(n)] = rng.integers(1, hi + 1, n) * rng.choice([-1, 1], n)
            elif kind == 2:
                m[rng.integers(n)] = m[rng.integers(n)]
            elif kind == 3:
                m = m * (rng.random((n, n)) < 0.6)
            elif kind == 4:
                m[:, -1] = 1
            d = leibniz(m)
            for a in (m.astype(float), np.asfortranarray(m.astype(float)), m):
                o.check(abs(f(a) - d) <= 1e-9 * max(1, float(hi) ** n), f"{n}x{n} determinant of {m.tolist()} is {f(a)}, want {d}", {"m": m})
    o.group("determinants", det, o.n(1500, 20000), limit=30)

    def terms(rng, k):
        """every Leibniz term separately"""
        for n, f in ((3, fg.calc_3x3determinant), (4, fg.calc_4x4determinant)):
            for q in itertools.permutations(range(n)):
                m = np.zeros((n, n))
                m[np.arange(n), list(q)] = rng.uniform(0.5, 3, n) * rng.choice([-1, 1], n)
                o.check(abs(f(m) - np.linalg.det(m)) < 1e-9 * abs(np.linalg.det(m)) + 1e-12, f"term {q}", {"m": m})
    o.group("leibniz terms", terms, 5)
