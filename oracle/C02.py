import copy
import numpy as np
import shapes as sh
import util

BOUNDS = "all rotation axis combinations, stretch in any direction by 0.2..5, batches up to 4097"


def run(o):
    szs = util.sizes((sh.F,), cap=12100)
    for kind in sh.KINDS2 + sh.KINDS3:
        def one(rng, k, kind=kind):
            d = sh.dim(kind)
            par = sh.params(rng, kind, s=float(rng.choice([1.0, 1.0, 10.0, 0.1, 1000.0])))
            kw = sh.transform(rng, d)
            kw0, par0 = copy.deepcopy(kw), copy.deepcopy(par)
            n = szs[k % len(szs)] if k < len(szs) else int(rng.integers(1, 100))
            x = sh.points(rng, kind, par, n)
            s = sh.make(kind, par, **kw)
            y = sh.forward(d, kw0, x)
            y0 = y.copy()
            v = np.asarray(s.eval(y))
            e = sh.exact(kind, par, x)
            inp = {"kind": kind, "par": par0, "transform": kw0, "n": n}
            o.check(v.shape == (n,), f"{kind}: one value per query point", inp)
            sc = (sh.size_of(kind, par) * 10 + 10) * 6
            bad = np.nonzero(~(np.abs(v - e) <= 1e-10 * sc))[0]
            if len(bad):
                b = bad[0]
                o.check(False, f"{kind}{par0} {kw0}: value at the image {y0[b].tolist()} of {x[b].tolist()} is {v[b]},"
                        f" untransformed value {e[b]}", {**inp, "point": x[b]})
            o.check(np.array_equal(y, y0), f"{kind}: evaluation modified the query points", inp)
            for key in kw0:
                o.check(np.array_equal(np.asarray(kw[key]), np.asarray(kw0[key])),
                        f"{kind}: the caller's {key} vector was modified to {kw[key]}", inp)
            o.check(repr(par) == repr(par0), f"{kind}: parameters modified", inp)
            v2 = np.asarray(s.eval(y))
            o.check(np.array_equal(v, v2), f"{kind}: second evaluation differs", inp)
            # an untransformed shape built afterwards is not affected
            v3 = np.asarray(sh.make(kind, par).eval(x))
            o.check(util.close(v3, e, 1e-10, sc), f"{kind}: transformation leaks into a new shape", inp)
        o.group(f"transform {kind}", one, o.n(120, 2000), limit=22)
