import numpy as np
import gen
import meshes as me
import util
import SeismicMesh as sm
from SeismicMesh.generation import mesh_generator as mg

BOUNDS = "2D/3D domains with curved, reentrant and combined boundaries, 1..12 iterations; batches up to 20000 elements for the filter and the projections"
quiet = util.quiet


def run(o):
    szs = [s for s in util.sizes(me.GF) if s]

    def whole(rng, k):
        dom, dim, h = gen.domain(rng)
        fh, kw = gen.sizes_fn(rng, dom, dim, h)
        it = int(rng.integers(1, 13))
        kw.update(max_iter=it, seed=int(rng.integers(1000)), verbose=0)
        if rng.random() < 0.3:
            kw["mesh_improvement"] = False
        if rng.random() < 0.3:
            kw["geps_mult"] = float(rng.choice([0.01, 0.05, 0.3]))
        if rng.random() < 0.2:
            b = np.array(dom.bbox).reshape(-1, 2)
            kw["pfix"] = b[:, 0] + rng.random((3, dim)) * (b[:, 1] - b[:, 0])
        calls = []

        def fd(x):
            calls.append(len(x))
            return dom.eval(x)
        use = rng.random() < 0.5
        arg = fd if use else dom
        if use:
            kw["bbox"] = tuple(map(float, dom.bbox))
        inp = {"domain": repr(type(dom)), "bbox": dom.bbox, "h": h, "kw": {a: b for a, b in kw.items()}}
        with gen.watch() as w, gen.alarm(100):
            p, t = quiet(sm.generate_mesh, arg, fh, **kw)
            ev = w.rec(dim).events()
        p, t = np.asarray(p), np.asarray(t)
        if len(t):
            d = np.asarray(dom.eval(p[t].sum(1) / (dim + 1)))
            m = d.max()
            o.check(m < -h * 0.001 + 1e-12 * np.abs(p).max(), f"an element has its centroid at signed distance {m}, not below {-h * 0.001}", inp)
        # retained: elements of the last triangulation inside by the tolerance, away from all boundary treatment
        V, T = [e for e in ev if e[0] == "vertices"][-1][1], [e for e in ev if e[0] == "cells"][-1][1]
        geps = kw.get("geps_mult", 0.1) * h
        dl = np.asarray(dom.eval(V[T].sum(1) / (dim + 1)))
        keep = T[dl < -geps + 1e-9 * h]
        if dim == 3:
            bd = np.zeros(len(V), bool)
            bd[np.array(sorted({v for f in me.boundary(keep, 3) for v in f}), int)] = True
            core = keep[~bd[keep].any(1)]
            if len(core):
                key = lambda P, R: {tuple(sorted(map(tuple, np.round(P[r] / (1e-5 * h)).astype(np.int64).tolist()))) for r in R}
                miss = key(V, core) - key(p, t)
                o.check(not miss, f"{len(miss)} elements inside the domain in the last triangulation are missing in the mesh", inp)
    o.group("generated meshes", whole, o.n(45, 400), limit=150)

    flt = util.private(mg, "_remove_triangles_outside", 4)

    def filt(rng, k):
        if flt is None:
            return
        dim = 2 + k % 2
        n = szs[k] if k < len(szs) else int(rng.integers(1, 60))
        nv = max(dim + 2, n // 2)
        sc = util.scale(rng)
        p = rng.uniform(-1, 1, (nv, dim)) * sc
        t = me.distinct_rows(rng, n, nv, dim + 1)
        r = 0.6 * sc

        def fd(x):
            return np.sqrt((np.asarray(x) ** 2).sum(1)) - r
        shape = rng.integers(8)
        if shape < 2:
            def fd(x):
                return np.asarray(x)[:, 0] * 1.0
        elif shape == 2:      # everything but a ball
            def fd(x):
                return 0.3 * sc - np.sqrt((np.asarray(x) ** 2).sum(1))
        elif shape == 3:      # a slit between two slabs
            def fd(x):
                return 0.05 * sc - np.abs(np.asarray(x)[:, 0])
        elif shape == 4:      # a shell
            def fd(x):
                q = np.sqrt((np.asarray(x) ** 2).sum(1))
                return np.maximum(q - 2 * sc, 0.5 * sc - q)
        g = sc * float(rng.choice([0.0, 0.01, 0.1, 1e-3]))
        p0, t0 = p.copy(), t.copy()
        out = np.asarray(quiet(flt, p, me.forms(rng, t), fd, g))
        inp = {"p": p, "t": t, "tolerance": g}
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0), "inputs are modified", inp)
        d = np.asarray(fd(p[t].sum(1) / (dim + 1)))
        amb = np.abs(d + g) < 1e-10 * sc
        if amb.any():
            return
        o.check(out.shape == t[d < -g].shape and np.array_equal(out, t[d < -g]), "the filter does not keep exactly the elements inside by the tolerance", inp)
    o.group("filter", filt, o.n(100, 1000), limit=40)

    prj = util.private(mg, "_project_points_back_newton", 5)

    def proj(rng, k):
        if prj is None:
            return
        dim = 2 + k % 2
        n = szs[k] if k < len(szs) else int(rng.integers(1, 60))
        sc = float(rng.choice([1.0, 1.0, 100.0, 5000.0]))
        c = rng.uniform(-1, 1, dim) * sc if rng.random() < 0.5 else np.zeros(dim)
        p = c + rng.uniform(-1, 1, (n, dim)) * sc * float(rng.choice([1.0, 1.0, 0.3, 0.5]))
        r = 0.6 * sc
        kind = rng.integers(3)
        mult = float(rng.choice([1.0, 1.0, 2.0, 0.5]))

        def fd(x):
            x = np.asarray(x)
            if kind == 0:
                return (np.sqrt(((x - c) ** 2).sum(1)) - r) * mult
            if kind == 1:
                return np.maximum(x[:, 0] - c[0] - 0.2 * sc, c[1] - x[:, 1] - 0.3 * sc) * mult
            return (x[:, 0] - c[0] + 0.5 * (x[:, -1] - c[-1])) * mult
        h = sc * float(rng.choice([0.1, 0.3]))
        deps = np.sqrt(np.finfo(float).eps) * h
        idx = int(rng.choice([0, 0, 0, 1, 2]))
        p0 = p.copy()
        d = np.asarray(fd(p0))
        q = np.asarray(quiet(prj, p.copy(), fd, deps, h, idx))
        inp = {"p": p0, "kind": int(kind), "centre": c, "scale": sc, "h": h, "idx": idx, "mult": mult}
        sel = d > 0 if idx == 0 else (d > 0) & (d < h / 1.5)
        o.check(q.shape == p0.shape, f"shape {q.shape}", inp)
        st = ~sel
        o.check(np.array_equal(q[st], p0[st]), "a vertex inside the domain (or outside the band) is moved", inp)
        if sel.any():
            g = np.column_stack([(np.asarray(fd(p0[sel] + deps * np.eye(dim)[a])) - d[sel]) / deps for a in range(dim)])
            g2 = (g ** 2).sum(1)
            want = p0[sel] - d[sel][:, None] * g / np.maximum(g2, deps)[:, None]
            o.check(np.abs(q[sel] - want).max() <= 1e-6 * sc, "a vertex outside is not moved by one Newton step onto the boundary", inp)
            near = np.abs(d[sel]) > 1e-3 * sc
            if near.any():
                e = np.asarray(fd(q[sel][near]))
                o.check(np.all(np.abs(e) < np.abs(d[sel][near])), "projection does not approach the boundary", inp)
    o.group("projection", proj, o.n(120, 1200), limit=40)

    imp = util.private(mg, "_improve_level_set_newton", 5)

    def improve(rng, k):
        if imp is None:
            return
        dim = 2 + k % 2
        p, t = util.rand_mesh(rng, dim, int(rng.integers(dim + 3, 80)), scale=1.0)
        p = p - 0.5

        def fd(x):
            return np.sqrt((np.asarray(x) ** 2).sum(1)) - 0.55
        deps = 1e-8
        q = np.asarray(quiet(imp, p.copy(), t.copy(), fd, deps, 1000 * deps))
        b = np.zeros(len(p), bool)
        b[np.array(sorted({v for f in me.boundary(t, dim) for v in f}), int)] = True
        inp = {"p": p, "t": t}
        o.check(np.array_equal(q[~b], p[~b]), "a vertex that is not on the boundary is moved", inp)
        if b.any():
            far = b & (np.sqrt((p ** 2).sum(1)) > 0.05)
            o.check(np.all(np.abs(fd(q[far])) <= np.abs(fd(p[far])) + 1e-6), "boundary vertices do not approach the level set", inp)
    o.group("level set", improve, o.n(60, 500), limit=30)
