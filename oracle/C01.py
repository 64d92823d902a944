import numpy as np
import shapes as sh
import util

BOUNDS = "batches up to 20000 points, parameters of magnitude 1e-9..1e9, on-surface, centre, corner and axis points included"


def run(o):
    szs = util.sizes((sh.F, "geometry/cpp/fast_geometry.cpp"))
    for kind in sh.KINDS2 + sh.KINDS3:
        def one(rng, k, kind=kind):
            par = sh.params(rng, kind)
            n = szs[k % len(szs)] if k < len(szs) else int(rng.integers(0, 200))
            x = sh.points(rng, kind, par, n)
            form = rng.integers(3)
            xin = x if form == 0 else np.asfortranarray(x) if form == 1 else np.ascontiguousarray(x[::-1])[::-1]
            x0 = x.copy()
            v = np.asarray(sh.make(kind, par).eval(xin))
            s = sh.size_of(kind, par) * 10
            e = sh.exact(kind, par, x)
            inp = {"kind": kind, "par": par, "n": n}
            o.check(v.shape == (n,), f"{kind}: one value per query point expected, got shape {v.shape}", inp)
            o.check(np.array_equal(x0, x), f"{kind}: query points were modified", inp)
            bad = np.nonzero(~(np.abs(v - e) <= 1e-11 * s))[0]
            if len(bad):
                b = bad[0]
                o.check(False, f"{kind}{par}: value at {x[b].tolist()} is {v[b]}, expected {e[b]}",
                        {**inp, "point": x[b], "got": v[b], "want": e[b]})
            for j in rng.permutation(n)[:3]:
                one_v = np.asarray(sh.make(kind, par).eval(x[j:j + 1]))
                o.check(abs(one_v[0] - v[j]) <= 1e-12 * s, f"{kind}: batch and single query differ", {**inp, "point": x[j]})
        o.group(f"value {kind}", one, o.n(90, 1500), limit=22)

    def funcs(rng, k):
        """the python forms of the box distances used elsewhere"""
        from SeismicMesh.geometry import signed_distance_functions as sdf
        from SeismicMesh import geometry as g
        for kind, f in (("Rectangle", "drectangle"), ("Cube", "dblock")):
            par = sh.params(rng, kind)
            x = sh.points(rng, kind, par, 50)
            for m in (sdf, g):
                fn = getattr(m, f, None)
                if fn is None:
                    continue
                v = fn(x, *par[0])
                o.check(util.close(v, sh.exact(kind, par, x), 1e-11, sh.size_of(kind, par) * 10), f"{f} differs", {"par": par})
    o.group("plain functions", funcs, o.n(20))
