import math

import numpy as np
import gen
import util
import SeismicMesh as sm
from SeismicMesh.generation import mesh_generator as mg
from SeismicMesh.generation import utils as mu

BOUNDS = "2D/3D boxes of any aspect, 1..5 ranks; first triangulation input of generate_mesh observed; retention frequencies over 150+ seeds (6 sigma)"
quiet = util.quiet


def nsteps(L, h):
    """steps needed to reach the far end (tolerating rounding)"""
    return int(math.ceil(L / h - 1e-9)), int(math.ceil(L / h + 1e-9))


def lattice(o, P, h, box, inp, name="lattice"):
    """checks the contract and returns nothing"""
    dim = len(box)
    P = np.asarray(P, float)
    o.check(P.ndim == 2 and P.shape[1] == dim, f"{name}: shape {P.shape}", inp)
    tol = 1e-7 * h + 1e-9 * np.abs(box).max()
    xs = np.unique(np.round((P[:, 0] - box[0, 0]) / h).astype(int))
    o.check(np.abs(P[:, 0] - box[0, 0] - h * np.round((P[:, 0] - box[0, 0]) / h)).max() < tol, f"{name}: rows are not h0 apart", inp)
    n = nsteps(box[0, 1] - box[0, 0], h)
    o.check(xs[0] == 0 and np.array_equal(xs, np.arange(len(xs))) and len(xs) - 1 >= n[0], f"{name}: rows {xs[[0, -1]]} do not cover the box", inp)
    prev = None
    k = np.round((P[:, 0] - box[0, 0]) / h).astype(int)
    for r in xs if len(xs) < 60 else xs[np.r_[0:30, -30:0]]:
        Q = P[k == r]
        first = []
        for a in range(1, dim):
            v = Q[:, a] - box[a, 0]
            f = v.min()
            first.append(f)
            o.check(-tol <= f <= h / 2 + tol, f"{name}: row {r} starts {f} from the side of axis {a}", inp)
            m = (v - f) / h
            o.check(np.abs(m - np.round(m)).max() < 1e-6, f"{name}: row {r} is not spaced by h0 along axis {a}", inp)
            m = np.unique(np.round(m).astype(int))
            o.check(np.array_equal(m, np.arange(len(m))) and f + h * (len(m) - 1) >= box[a, 1] - box[a, 0] - tol,
                    f"{name}: row {r} does not cover axis {a}", inp)
        full = 1
        for a in range(1, dim):
            full *= len(np.unique(np.round((Q[:, a] - Q[:, a].min()) / h).astype(int)))
        o.check(len(Q) == full, f"{name}: row {r} has {len(Q)} points, want {full}", inp)
        if prev is not None:
            d = np.abs(np.array(first) - prev[1])
            if r == prev[0] + 1:
                o.check(np.abs(d - h / 2).max() < tol, f"{name}: rows {prev[0]} and {r} are not offset by half a spacing", inp)
        prev = (r, np.array(first))


def box(rng, dim):
    s = float(rng.choice([1.0, 1.0, 1000.0, 1e-2]))
    lo = rng.uniform(-2, 2, dim) * s if rng.random() < 0.7 else np.zeros(dim)
    L = s * rng.uniform(0.5, 2.0, dim)
    h = s * float(rng.choice([0.25, 0.1, 0.13, 0.5, 0.07 if dim == 2 else 0.2, 3.0]))
    if rng.random() < 0.4:
        L = h * rng.integers(1, 9, dim)
    return np.column_stack((lo, lo + L)), h


def run(o):
    def grid(rng, k):
        dim = 2 + k % 2
        b, h = box(rng, dim)
        b0 = b.copy()
        P = mu.create_staggered_grid(h, dim, b)
        inp = {"box": b0, "h0": h}
        o.check(np.array_equal(b, b0), "the box is modified", inp)
        lattice(o, P, h, b0, inp)
    o.group("lattice", grid, o.n(120, 1200), limit=30)

    def init(rng, k):
        dim = 2 + k % 2
        b, h = box(rng, dim)
        size, axis = int(rng.integers(1, 6)), int(rng.integers(dim))
        if size > 1 and (b[axis, 1] - b[axis, 0]) / size < 2 * h:
            return
        b0 = b.copy()
        Q = [np.asarray(mu.make_init_points(b, r, size, axis, h, dim)) for r in range(size)]
        inp = {"box": b0, "h0": h, "size": size, "axis": axis}
        o.check(np.array_equal(b, b0), "the box is modified", inp)
        if size == 1:
            lattice(o, Q[0], h, b0, inp)
            return
        tol = 1e-6 * h + 1e-9 * np.abs(b0).max()
        for q in Q:
            o.check(q.ndim == 2 and q.shape[1] == dim and len(q), "no points", inp)
        A = np.vstack(Q)
        for a in range(dim):
            v = np.unique(np.round(A[:, a] / tol)) * tol
            if a == axis:
                o.check(v[0] <= b0[a, 0] + tol and v[-1] >= b0[a, 1] - tol, f"axis {a} is not covered: {v[0]}..{v[-1]}", inp)
                o.check(np.diff(v).max() <= 2 * h + tol, f"gap of {np.diff(v).max()} along axis {a}", inp)
        for r in range(size):
            for a in range(dim):
                lo, hi = Q[r][:, a].min(), Q[r][:, a].max()
                if a != axis:
                    o.check(lo <= b0[a, 0] + h / 2 + tol and hi >= b0[a, 1] - tol, f"rank {r} does not cover axis {a}", inp)
            lb = b0.copy()
            lb[axis, 0] = Q[r][:, axis].min()
            lb[axis, 1] = lb[axis, 0]
            lattice(o, Q[r], h, np.column_stack((Q[r].min(0), Q[r].max(0) - np.where(np.arange(dim) > 0, h / 2, 0))),
                    inp, name=f"rank {r}")
            if r:
                # no point of one rank repeats one of another
                g = Q[r][:, axis].min() - Q[r - 1][:, axis].max()
                o.check(g > -h, f"ranks {r - 1} and {r} overlap by {-g}", inp)
    o.group("parallel lattice", init, o.n(100, 900), limit=30)

    def first(dom, fh, kw):
        with gen.watch() as w:
            try:
                quiet(sm.generate_mesh, dom, fh, max_iter=1, verbose=0, **kw)
            except IndexError:
                pass     # nothing left after filtering: the first triangulation has been seen
            for r in (w.r2, w.r3):
                for e in r.events():
                    if e[0] == "insert":
                        return e[1]

    def initial(rng, k):
        dom, dim, h = gen.domain(rng)
        b = np.array(dom.bbox, float).reshape(-1, 2)
        gm = float(rng.choice([0.1, 0.1, 0.05, 0.01]))
        kw = {"seed": int(rng.integers(0, 1000)), "geps_mult": gm}
        pf = None
        if rng.random() < 0.6:
            n = int(rng.integers(1, 6))
            pf = b[:, 0] + rng.random((n, dim)) * (b[:, 1] - b[:, 0])
            kw["pfix"] = pf.copy()
        scalar = rng.random() < 0.5
        if scalar:
            fh = h
        else:
            fh, k2 = gen.sizes_fn(rng, dom, dim, h)
            kw.update(k2)
            scalar = np.isscalar(fh)
        inp = {"bbox": b, "h": h, "kw": {a: c for a, c in kw.items()}, "domain": repr(type(dom)), "scalar": bool(scalar)}
        A = first(dom, fh, kw)
        B = first(dom, fh, kw)
        o.check(A is not None and B is not None and np.array_equal(A, B), "the same seed and arguments give other points", inp)
        A = A.reshape(-1, dim)
        nf = 0
        if pf is not None:
            o.check(np.array_equal(A[:len(pf)], pf), "fixed points do not come first", inp)
            nf = len(pf)
        co = getattr(dom, "corners", None)
        if co is not None and (scalar or dim == 2):
            deps = math.sqrt(np.finfo(float).eps) * h
            co = np.asarray(co)[np.asarray(dom.eval(np.asarray(co))) > -1000 * deps]
            o.check(np.array_equal(A[nf:nf + len(co)], co), "the corners do not follow the fixed points", inp)
            nf += len(co)
        R = A[nf:]
        G = mu.create_staggered_grid(h, dim, b)
        lattice(o, G, h, b, inp)
        d = np.asarray(dom.eval(G))
        eps = 1e-9 * (np.abs(b).max() + h)
        geps = gm * h
        rk = lambda X: set(map(tuple, np.round(X / (1e-6 * h)).astype(np.int64).tolist()))
        sure, maybe = rk(G[d < geps - eps]), rk(G[d < geps + eps])
        S = rk(R)
        o.check(len(S) == len(R), "an initial vertex occurs twice", inp)
        o.check(S <= maybe, f"{len(S - maybe)} initial vertices are not lattice points inside the domain", inp)
        if scalar:
            o.check(sure <= S, f"{len(sure - S)} lattice points inside are missing for a constant size", inp)
        elif len(sure):
            K = G[d < geps - eps]
            r = np.asarray(fh(K))
            pr = (r.min() / r) ** dim
            # points at the smallest size are always kept
            top = K[pr > 1 - 1e-12]
            o.check(rk(top) <= S or len(maybe - sure) > 0, "a point of the smallest size is dropped", inp)
    o.group("initial vertices", initial, o.n(50, 400), limit=60)

    def freq(rng, k):
        dim = 2 if k % 3 else 3
        if dim == 2:
            dom, h = sm.Rectangle((0.0, 1.0, 0.0, 1.5)), 0.2
        else:
            dom, h = sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0)), 0.34
        a = rng.uniform(0.3, 2.0, dim)

        def fh(x):
            x = np.stack(x, -1) if isinstance(x, tuple) else np.asarray(x)
            return h * (1 + x @ a)
        G = mu.create_staggered_grid(h, dim, np.array(dom.bbox, float).reshape(-1, 2))
        G = G[np.asarray(dom.eval(G)) < 0.1 * h - 1e-12]
        pr = (fh(G).min() / fh(G)) ** dim
        n = 150
        cnt = np.zeros(len(G))
        tab = {t: i for i, t in enumerate(map(tuple, np.round(G, 6).tolist()))}
        base = int(rng.integers(0, 10 ** 6))
        for s in range(n):
            A = first(dom, fh, {"h0": h, "seed": base + s}).reshape(-1, dim)
            for t in map(tuple, np.round(A, 6).tolist()):
                if t in tab:
                    cnt[tab[t]] += 1
        co = dom.corners if dim == 2 else None
        m = np.ones(len(G), bool)
        if co is not None:
            m = ~np.array([any(np.allclose(g, c) for c in co) for g in G], dtype=bool)
        inp = {"a": a, "dim": dim, "base": base}
        for lo, hi in ((0, 0.1), (0.1, 0.25), (0.25, 0.5), (0.5, 0.999), (0, 0.999)):
            q = m & (pr >= lo) & (pr < hi)
            if q.sum() == 0:
                continue
            e, v = n * pr[q].sum(), n * (pr[q] * (1 - pr[q])).sum()
            z = (cnt[q].sum() - e) / math.sqrt(v + 1)
            o.check(abs(z) < 6, f"points of retention probability {lo}..{hi} kept {cnt[q].sum():.0f} times, expected {e:.1f} (z={z:.1f})", inp)
    o.group("retention", freq, o.n(3, 12), limit=120)
