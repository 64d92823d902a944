import numpy as np
import meshes as me
import util
from SeismicMesh.geometry import utils as gu

BOUNDS = "meshes up to 20000 elements, unused vertices anywhere, single elements, non-manifold tables"


def run(o):
    szs = [s for s in util.sizes(me.GF) if s > 0]
    for dim in (2, 3):
        def adj(rng, k, dim=dim):
            t = me.connectivity(rng, k, dim, szs)
            if t.max() > 60000:
                u, inv = np.unique(t, return_inverse=True)
                t = inv.reshape(t.shape) + int(rng.integers(0, 3))
            nv = int(t.max()) + 1 + int(rng.integers(0, 3)) * int(rng.integers(0, 5))
            p = rng.random((nv, dim))
            tt = me.forms(rng, t)
            t0, p0 = t.copy(), p.copy()
            inp = {"t": t, "nv": nv, "dim": dim}
            vtoe, ptr = gu.vertex_to_entities(p, tt, dim=dim)
            o.check(len(ptr) == nv + 1, f"pointer table has {len(ptr)} entries for {nv} vertices", inp)
            o.check(ptr[0] == 0 and ptr[-1] == t.size and len(vtoe) == t.size, "table ends", inp)
            o.check(np.all(np.diff(ptr) >= 0), "pointers are not monotone", inp)
            own = np.repeat(np.arange(nv), np.diff(ptr))
            got = np.column_stack((own, vtoe))
            want = np.column_stack((t.ravel(), np.repeat(np.arange(len(t)), dim + 1)))
            o.check(sorted(map(tuple, got.tolist())) == sorted(map(tuple, want.tolist())), "incidences differ", inp)
            if len(t) <= 3000:
                be = np.asarray(gu.get_boundary_entities(p, tt, dim=dim))
                bv = {x for r in me.boundary(t, dim) for x in r}
                w = [i for i, r in enumerate(t.tolist()) if any(x in bv for x in r)]
                o.check(sorted(be.tolist()) == w, f"boundary entities: got {len(be)}, want {len(w)}", inp)
            o.check(np.array_equal(tt, t0) and np.array_equal(p, p0), "inputs modified", inp)
        o.group(f"adjacency {dim}D", adj, o.n(140, 1200), limit=60)
