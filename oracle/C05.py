import numpy as np
import meshes as me
import util
from SeismicMesh.geometry import utils as gu
from SeismicMesh.generation import mesh_generator as mg
import _fast_geometry as fg

BOUNDS = "connectivity tables up to 20000 rows, indices up to 3e6, non-manifold, gapped numbering, fans, single elements"


def run(o):
    szs = util.sizes(me.GF)
    for dim in (2, 3):
        def tables(rng, k, dim=dim):
            t = me.connectivity(rng, k, dim, szs)
            t0 = t.copy()
            tt = me.forms(rng, t)
            ref = me.edges_of(t)
            e = np.asarray(gu.get_edges(tt, dim=dim))
            n = 3 if dim == 2 else 6
            inp = {"t": t, "dim": dim}
            o.check(e.shape == (n * len(t), 2), f"get_edges dim {dim}: shape {e.shape}", inp)
            o.check(np.array_equal(tt, t0), "get_edges modified the table", inp)
            o.check(util.rowset(e) == sorted(ref), f"get_edges dim {dim}: wrong edges", inp)
            # per element rows
            j = int(rng.integers(len(t)))
            own = sorted(util.sub_edges(t[j]))
            o.check(util.rowset(e[n * j:n * j + n]) == own, f"get_edges dim {dim}: rows of element {j} are not its edges", inp)
            u = np.asarray(mg._get_edges(tt) if dim == 2 else mg._get_edges(tt))
            o.check(util.rowset(u) == sorted(set(ref)), f"unique edges dim {dim}: not every undirected edge exactly once", inp)
            if dim == 3:
                f = np.asarray(gu.get_facets(np.asarray(tt)))
                o.check(f.shape == (4 * len(t), 3), f"get_facets: shape {f.shape}", inp)
                o.check(util.rowset(f) == sorted(me.facets_of(t)), "get_facets: wrong facets", inp)
                o.check(util.rowset(f[4 * j:4 * j + 4]) == sorted(util.sub_facets(t[j])), "get_facets: rows of an element", inp)
                b = np.asarray(gu.get_boundary_facets(tt))
            else:
                b = np.asarray(gu.get_boundary_edges(tt, dim=2))
                b2 = np.asarray(gu.get_boundary_edges(tt))
                o.check(util.rowset(b) == util.rowset(b2), "get_boundary_edges: default dim", inp)
            want = me.boundary(t, dim)
            o.check(util.rowset(b) == want, f"boundary dim {dim}: got {len(b)} entities, want {len(want)}", inp)
            v = np.asarray(gu.get_boundary_vertices(tt, dim=dim))
            o.check(sorted(v.tolist()) == sorted({int(x) for r in want for x in r}), f"boundary vertices dim {dim}", inp)
            o.check(np.array_equal(tt, t0), "a boundary query modified the table", inp)
        o.group(f"tables {dim}D", tables, o.n(160, 1500), limit=60)

    def closed(rng, k):
        """closed surface / closed three-manifold: no boundary"""
        t2 = np.array([[0, 1, 2], [0, 3, 1], [1, 3, 2], [2, 3, 0]]) + int(rng.integers(0, 50))
        t2 = np.array([r[rng.permutation(3)] for r in t2])
        o.check(len(gu.get_boundary_edges(t2)) == 0, "closed surface has no boundary edge", {"t": t2})
        import itertools
        t3 = np.array(list(itertools.combinations(range(5), 4)))
        o.check(len(gu.get_boundary_facets(t3)) == 0, "closed 3-manifold has no boundary facet", {"t": t3})
    o.group("closed", closed, 5)

    def uniq(rng, k):
        n = szs[k % len(szs)]
        hi = int(rng.choice([2, 5, 50, 1000, 40000, 70000, 2 ** 30]))
        e = rng.integers(0, hi, (n, 2))
        u = np.asarray(fg.unique_edges(e)).reshape(-1, 2)
        want = sorted({(min(a, b), max(a, b)) for a, b in e.tolist()})
        o.check(u.tolist() == [list(x) for x in want] or util.rowset(u) == want, f"unique_edges n={n} hi={hi}", {"e": e})
        x = rng.integers(0, hi, (max(n, 1), int(rng.integers(1, 5))))
        b, c = gu.unique_row_view(x)
        w = util.counts([tuple(r) for r in x.tolist()])
        o.check({tuple(r): int(q) for r, q in zip(b.tolist(), c)} == w and len(b) == len(w), "unique_row_view counts", {"x": x})
        o.check(len(np.asarray(fg.unique_edges(np.zeros((0, 2), int)))) == 0, "empty", None)
    def alike(rng, k):
        """different edges that agree in the sum, the product or a packed key of their ends, repeated in turn"""
        r = int(rng.choice([10, 100, 256, 1000, 1024, 10 ** 4, 32768, 65536, 10 ** 5, 10 ** 6, 2 ** 20, 46341]))
        a = int(rng.integers(0, 5))
        b = r + a + int(rng.integers(2, 9))
        kind = k % 4
        if kind == 0:
            e, f = (a, b), (a + 1, b - r)
        elif kind == 1:
            e, f = (a, b), (a + 1, b - 1)
        elif kind == 2:
            e, f = (a + 1, b * 2), ((a + 1) * 2, b)
        else:
            e, f = (a, b), (a, b + (1 << int(rng.choice([8, 16, 24]))))
        t = [[e, f, f[::-1], e[::-1]][int(q)] for q in rng.integers(0, 4, int(rng.integers(2, 40)))]
        u = np.asarray(fg.unique_edges(np.array(t))).reshape(-1, 2)
        want = sorted({(min(x), max(x)) for x in t})
        o.check(len(u) == len(want) and util.rowset(u) == want, "every edge exactly once (edges with alike keys)", {"e": t})
    o.group("alike", alike, o.n(80, 800), limit=30)
    o.group("unique", uniq, o.n(60, 400), limit=30)

    def wind(rng, k):
        """winding order of a disc-like mesh: consecutive boundary edges share a vertex, each once"""
        nx, ny = int(rng.integers(1, 8)), int(rng.integers(1, 8))
        p, t = util.grid2(nx, ny, rng)
        w = gu.get_winded_boundary_edges(t)
        o.check(util.rowset(w) == me.boundary(t, 2), "winded edges are the boundary edges", {"t": t})
        for a, b in zip(w, np.roll(w, -1, axis=0)):
            o.check(set(a.tolist()) & set(b.tolist()), "consecutive winded edges share a vertex", {"t": t})
    o.group("winding", wind, o.n(20, 200))
