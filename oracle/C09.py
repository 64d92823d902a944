import math

import numpy as np
import meshes as me
import util
import _fast_geometry as fg
from SeismicMesh.generation import mesh_generator as mg

BOUNDS = "batches up to 20000 tetrahedra, well shaped, needle, sliver and exactly flat ones"
EDG = [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)]     # the angle listed i-th lies at the edge EDG[i]


def angle(q, e):
    a, b = e
    c, d = [x for x in range(4) if x not in e]
    ax = q[b] - q[a]
    ax = ax / np.linalg.norm(ax)
    u, v = q[c] - q[a], q[d] - q[a]
    u, v = u - ax * (u @ ax), v - ax * (v @ ax)
    return math.atan2(np.linalg.norm(np.cross(u, v)), u @ v)


def tets(rng, n, k):
    q = rng.uniform(-1, 1, (n, 4, 3))
    for i in range(n):
        c = rng.integers(6)
        if c == 0:
            q[i] = rng.integers(-3, 4, (4, 3))
        elif c == 1:      # flat, integer coordinates
            ab = rng.integers(-3, 4, (4, 2))
            q[i, :, 0], q[i, :, 1] = ab[:, 0], ab[:, 1]
            q[i, :, 2] = rng.integers(-2, 3) * ab[:, 0] + rng.integers(-2, 3) * ab[:, 1] + rng.integers(-2, 3)
        elif c == 2:      # sliver
            q[i, :, 2] = rng.uniform(-1, 1, 4) * 10.0 ** rng.integers(-6, 0)
        elif c == 3:
            q[i, 3] = q[i, :3].mean(0)      # nearly flat, apex over centroid
    return q


def nondeg(q):
    """every face has positive area"""
    for a, b, c in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
        u, v = q[b] - q[a], q[c] - q[a]
        if np.linalg.norm(np.cross(u, v)) < 0.05 * np.linalg.norm(u) * np.linalg.norm(v) or min(np.linalg.norm(u), np.linalg.norm(v), np.linalg.norm(u - v)) < 1e-3:
            return False
    return True


def run(o):
    szs = util.sizes(me.GF, cap=9000)

    def dih(rng, k):
        n = szs[k % len(szs)] if k < len(szs) else int(rng.integers(1, 30))
        q = tets(rng, min(n, 600), k)
        q = np.array([x for x in q if nondeg(x)]).reshape(-1, 4, 3)
        if len(q) and n > len(q):
            q = q[rng.integers(0, len(q), n)]
        sc = util.scale(rng)
        p = q.reshape(-1, 3) * sc
        t = np.arange(len(p)).reshape(-1, 4)
        pm = rng.permutation(len(p))
        iv = np.empty_like(pm)
        iv[pm] = np.arange(len(pm))
        p, t = p[pm], iv[t].reshape(-1, 4)
        if k % 2:
            # few vertices shared by many tetrahedra
            p = rng.uniform(-1, 1, (int(rng.integers(5, 12)), 3)) * sc
            t = me.distinct_rows(rng, max(4, min(n, 400)), len(p), 4)
            t = t[[nondeg(p[r] / sc) for r in t]]
        t = me.chain(rng, t)
        inp = {"p": p, "t": t}
        a = np.asarray(fg.calc_dihedral_angles(p, me.forms(rng, t)))
        o.check(a.shape == (6 * len(t), 1), f"shape {a.shape}", inp)
        o.check(np.all((a >= 0) & (a <= math.pi)), "angle outside [0, pi] or NaN", inp)
        ck = np.arange(len(t)) if len(t) <= 40 else np.unique(np.concatenate((rng.integers(0, len(t), 40), [0, len(t) - 1])))
        for i in ck:
            w = [angle(p[t[i]], e) for e in EDG]
            o.check(np.allclose(a[6 * i:6 * i + 6, 0], w, atol=3e-6), f"element {i}: {a[6*i:6*i+6,0].tolist()} want {w}", inp)
    o.group("dihedral", dih, o.n(140, 1200), limit=60)

    def vg(rng, k):
        n = szs[k % len(szs)] if k < len(szs) else int(rng.integers(1, 30))
        q = rng.uniform(-1, 1, (n, 4, 3)) * util.scale(rng)
        g = np.asarray(fg.calc_volume_grad(q[:, 1], q[:, 2], q[:, 3]))
        want = -np.cross(q[:, 2] - q[:, 1], q[:, 3] - q[:, 1]) / 6
        s = np.abs(q).max() ** 2 if n else 1
        o.check(g.shape == (n, 3), f"shape {g.shape}", {"q": q})
        same = np.allclose(g, want, atol=1e-9 * s) or np.allclose(g, -want, atol=1e-9 * s)
        o.check(same, "volume gradient", {"q": q})
        if n:
            o.check(np.allclose(g, SG[0] * want, atol=1e-9 * s), "volume gradient has the wrong sign", {"q": q})
    SG = [-1.0]
    o.group("volume gradient", vg, o.n(70, 600), limit=25)

    def cg(rng, k):
        n = szs[k % len(szs)] if k < len(szs) else int(rng.integers(1, 30))
        m = min(max(n, 1), 300)
        q = rng.uniform(-1, 1, (4 * m, 4, 3))
        v = np.abs(np.linalg.det(q[:, 1:] - q[:, :1]))
        q = q[v > 0.05]
        q = q[rng.integers(0, len(q), n)]
        sc = float(rng.choice([1, 1, 10, 0.1, 1000]))
        q = q * sc + (rng.uniform(-2, 2, 3) * sc if rng.random() < 0.5 else 0)
        g = np.asarray(fg.calc_circumsphere_grad(q[:, 0], q[:, 1], q[:, 2], q[:, 3]))
        o.check(g.shape == (n, 3), f"shape {g.shape}", {"q": q})
        # derivative of the squared circumradius with respect to the first vertex
        a = q[:, 1:] - q[:, 3:4] if False else None
        ck = range(n) if n <= 30 else np.unique(np.concatenate((rng.integers(0, n, 30), [0, n - 1])))
        for i in ck:
            x0, A = q[i, 0], q[i, 1:]

            def R2(x):
                M = 2 * np.vstack((A[0] - x, A[1] - x, A[2] - x))
                b = (A ** 2).sum(1) - x @ x
                c = np.linalg.solve(M, b)
                return c, ((c - x) ** 2).sum()
            c, _ = R2(x0)
            # (c-y).(c-y) = R2 for the other three vertices; c moves along the line normal to their plane
            nrm = np.cross(A[1] - A[0], A[2] - A[0])
            den = nrm @ (x0 - A[0])
            w = 2 * ((c - A[0]) @ nrm) * (x0 - c) / den
            o.check(np.allclose(g[i], w, rtol=1e-6, atol=1e-7 * (np.abs(w).max() + sc)), f"circumradius gradient of element {i}: {g[i]}, want {w}", {"q": q[i]})
    o.group("circumradius gradient", cg, o.n(70, 600), limit=25)
