import numpy as np
import gen
import meshes as me
import util
import SeismicMesh as sm
from SeismicMesh.generation import mesh_generator as mg
from SeismicMesh.generation import utils as mu

BOUNDS = "random meshes up to 20000 elements, variable sizes, 1..10 observed iterations, fixed points inside, outside, repeated"
quiet = util.quiet


def law(p, t, fh, h0, mult):
    dim = p.shape[1]
    e = np.array(sorted(set(me.edges_of(t))), int).reshape(-1, 2)
    b = p[e[:, 0]] - p[e[:, 1]]
    L = np.sqrt((b ** 2).sum(1))
    h = fh((p[e[:, 0]] + p[e[:, 1]]) / 2)
    L0 = h * mult * ((L ** dim).sum() / (h ** dim).sum()) ** (1.0 / dim)
    F = np.maximum(L0 - L, 0)
    with np.errstate(all="ignore"):
        V = np.where(L[:, None] > 0, (F / np.where(L > 0, L, 1))[:, None] * b, 0)
    T = np.zeros_like(p)
    np.add.at(T, e[:, 0], V)
    np.add.at(T, e[:, 1], -V)
    return T, F


def run(o):
    szs = [s for s in util.sizes(me.GF + ("generation/utils.py",)) if s]
    fn = util.private(mg, "_compute_forces", 5)

    def forces(rng, k):
        if fn is None:
            return
        dim = 2 + k % 2
        if k < len(szs):
            n = szs[k] if dim == 2 else min(szs[k], 5000)
            nv = max(dim + 2, n // 2)
            p = rng.random((nv, dim))
            t = me.distinct_rows(rng, n, nv, dim + 1)
        else:
            p, t = util.rand_mesh(rng, dim, int(rng.integers(dim + 2, 60)), scale=1.0)
        sc = util.scale(rng, ("generation/mesh_generator.py",))
        p = p * sc + float(rng.choice([0.0, 0.0, -sc, 3 * sc]))
        a = rng.uniform(-0.4, 0.4, dim)
        kind = rng.integers(3)

        def fh(x):
            if kind == 0:
                return np.full(len(x), 0.3 * sc)
            return sc * (0.3 + 0.2 * np.sin(x / sc @ a * 7))
        mult = float(rng.choice([1.2, 1.1, 1.0, 1.5]))
        p0, t0 = p.copy(), t.copy()
        F = np.asarray(quiet(fn, p, me.forms(rng, t), fh, 0.3 * sc, mult))
        inp = {"p": p, "t": t, "mult": mult, "kind": int(kind), "scale": sc}
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0), "inputs modified", inp)
        o.check(F.shape == p.shape, f"shape {F.shape}", inp)
        W, f = law(p, t, fh, 0.3 * sc, mult)
        m = np.abs(W).max() + 1e-30
        o.check(np.abs(F.sum(0)).max() <= 1e-9 * (np.abs(W).sum() + 1e-30), "forces do not sum to zero", inp)
        bad = np.argwhere(~(np.abs(F - W) <= 1e-8 * (m + sc)))
        o.check(len(bad) == 0, f"force on vertex {bad[:1].tolist()}: {F[bad[0][0]] if len(bad) else 0}, expected {W[bad[0][0]] if len(bad) else 0}", inp)
    o.group("law", forces, o.n(140, 1500), limit=60)

    fd_ = util.private(mu, "dense", 4)

    def dense(rng, k):
        if fd_ is None:
            return
        n, m = int(rng.integers(1, 200)), int(rng.integers(1, 20))
        I, J, S = rng.integers(0, m, n), rng.integers(0, 3, n), rng.normal(size=n)
        A = np.asarray(fd_(I, J, S, shape=(m, 3)))
        B = np.zeros((m, 3))
        np.add.at(B, (I, J), S)
        o.check(np.allclose(A, B, atol=1e-12), "dense accumulates", {"I": I, "J": J, "S": S})
        o.check(np.allclose(fd_(I, 1, 2.0, (m, 3)).sum(), 2.0 * n), "scalar arguments", {"I": I})
    o.group("dense", dense, o.n(30, 200))

    def step(rng, k):
        """one observed step of generation is  vertices + delta_t * forces  with fixed points held"""
        dim = 2 if k % 3 else 3
        L = float(rng.choice([1.0, 50.0]))
        n = 60 if dim == 2 else 50
        big = lambda x: -np.ones(len(x)) * 100 * L      # noqa: domain without boundary
        pts = rng.random((n, dim)) * L
        h = L * (0.15 if dim == 2 else 0.3)
        a = rng.uniform(-1, 1, dim)

        def fh(x):
            return h * (1 + 0.3 * np.sin(x / L @ a * 5))
        kw = {"points": pts, "bbox": (0.0, L) * dim, "h0": h, "verbose": 0, "mesh_improvement": False}
        dt = 0.3
        if rng.random() < 0.6:
            dt = kw["delta_t"] = float(rng.choice([0.1, 0.2, 0.3]))
        pf = None
        if rng.random() < 0.7:
            nf = int(rng.integers(1, 5))
            pf = pts[rng.choice(n, nf, replace=False)] + rng.normal(size=(nf, dim)) * float(rng.choice([0, 1e-3, 0.05])) * L
            if rng.random() < 0.3:
                pf = np.vstack((pf, pf[:1]))
            kw["pfix"] = pf if rng.random() < 0.5 else pf.tolist()
        m = int(rng.integers(2, 7))
        with gen.watch() as w, gen.alarm(60):
            quiet(sm.generate_mesh, big, fh, max_iter=m, **kw)
        ev = w.rec(dim).events()
        P = [e[1] for e in ev if e[0] == "vertices"]
        C = [e[1] for e in ev if e[0] == "cells"]
        I = [e[1].reshape(-1, dim) for e in ev if e[0] == "insert"]
        inp = {"points": pts, "pfix": pf, "delta_t": dt, "iterations": m, "h": h, "a": a}
        mult = 1 + 0.4 / 2 ** (dim - 1)
        for i in range(min(len(P), len(I) - 1)):
            F, _ = law(P[i], C[i], fh, h, mult)
            if pf is not None:
                for x in pf:
                    F[int(np.argmin(((P[i] - x) ** 2).sum(1)))] = 0
            W = P[i] + dt * F
            o.check(W.shape == I[i + 1].shape and np.abs(W - I[i + 1]).max() <= 1e-8 * L, f"step {i + 1}: vertices did not move by delta_t times the bar forces", inp)
    o.group("observed steps", step, o.n(45, 400), limit=60)

    def fixed(rng, k):
        """points requested as fixed inside a real domain are present, unmoved, in every triangulation"""
        d, dim, h = gen.domain(rng, 2 if k % 3 else 3)
        f, kw = gen.sizes_fn(rng, d, dim, h)
        bb = np.array(d.bbox).reshape(-1, 2)
        pf = []
        for _ in range(200):
            x = bb[:, 0] + rng.random(dim) * (bb[:, 1] - bb[:, 0])
            if d.eval(x[None])[0] < -0.6 * h and all(np.linalg.norm(x - y) > 0.8 * h for y in pf):
                pf.append(x)
            if len(pf) >= 3:
                break
        if not pf:
            return
        m = int(rng.integers(2, 9))
        with gen.watch() as w, gen.alarm(60):
            quiet(sm.generate_mesh, d, f, max_iter=m, pfix=pf if k % 2 else np.array(pf), verbose=0, **kw)
        ev = w.rec(dim).events()
        for i, e in enumerate([e for e in ev if e[0] == "insert"]):
            X = e[1].reshape(-1, dim)
            for x in pf:
                o.check((X == x).all(1).any(), f"fixed point {x.tolist()} moved before triangulation {i + 1}", {"pfix": np.array(pf), "bbox": d.bbox, "h": h, "iterations": m})
    o.group("fixed points", fixed, o.n(24, 200), limit=60)
