import numpy as np
import shapes as sh
import util
from SeismicMesh.geometry import signed_distance_functions as sdf

BOUNDS = "random shapes and combinations, 3000 sample points each concentrated around the reported box"


def inside_box(bbox, x, tol):
    b = np.array(bbox, float).reshape(-1, 2)
    return np.all((x >= b[:, 0] - tol) & (x <= b[:, 1] + tol), axis=1)


def cloud(rng, bbox, n):
    b = np.array(bbox, float).reshape(-1, 2)
    w = b[:, 1] - b[:, 0]
    x = rng.uniform(-0.6, 1.6, (n, len(b))) * w + b[:, 0]
    m = n // 3
    y = rng.uniform(0, 1, (m, len(b))) * w + b[:, 0]
    ax = rng.integers(0, len(b), m)
    side = rng.integers(0, 2, m)
    off = rng.choice([1e-6, 1e-3, 1e-2, 0.05], m)
    r = np.arange(m)
    y[r, ax] = np.where(side == 1, b[ax, 1] + off * w[ax], b[ax, 0] - off * w[ax])
    return np.vstack((x, y))


def check(o, name, s, x, inp, key=None):
    v = np.asarray(s.eval(x))
    sc = float(np.max(np.abs(x))) if len(x) else 1.0
    ok = inside_box(s.bbox, x, 1e-9 * sc)
    bad = np.nonzero((v <= -1e-9 * sc) & ~ok)[0]
    if len(bad):
        b = bad[0]
        o.check(False, f"{name}: point {x[b].tolist()} has value {v[b]} <= 0 but lies outside the box {s.bbox}",
                {**inp, "point": x[b], "bbox": s.bbox}, key)
    return v


def rand_shape(rng, d, depth=0):
    r = rng.random()
    if depth < 2 and r < 0.35:
        n = int(rng.integers(2, 5))
        ops = [rand_shape(rng, d, depth + 1) for _ in range(n)]
        cls = ["Union", "Intersection", "Difference"][rng.integers(3)]
        return getattr(sdf, cls)([q[0] for q in ops]), f"{cls}[{', '.join(q[1] for q in ops)}]"
    kind = (sh.KINDS2 if d == 2 else sh.KINDS3)[rng.integers(2 if d == 2 else 5)]
    par = sh.params(rng, kind, s=1.0)
    kw = sh.transform(rng, d)
    desc = f"{kind}{par}{kw}"
    return sh.make(kind, par, **kw), desc


def run(o):
    for kind in sh.KINDS2 + sh.KINDS3:
        def one(rng, k, kind=kind):
            d = sh.dim(kind)
            par = sh.params(rng, kind, s=float(rng.choice([1.0, 1.0, 100.0])))
            kw = sh.transform(rng, d) if k % 3 else {}
            desc = f"{kind}{par}{kw}"
            s = sh.make(kind, par, **kw)
            inp = {"shape": desc}
            o.check(len(s.bbox) == 2 * d, f"{desc}: box has {len(s.bbox)} entries", inp)
            x = cloud(rng, s.bbox, 1500)
            check(o, desc, s, x, inp)
            # points of the untransformed shape mapped forward
            base = sh.points(rng, kind, par, 1500)
            base = base[sh.exact(kind, par, base) <= 0]
            check(o, desc, s, sh.forward(d, kw, base), inp)
        o.group(f"box {kind}", one, o.n(70, 1000), limit=18)

    def csg(rng, k):
        d = 2 + k % 2
        s, desc = rand_shape(rng, d)
        inp = {"shape": desc}
        o.check(s.dim == d and len(s.bbox) == 2 * d, f"{desc}: dimension or box size wrong", inp)
        check(o, desc[:300], s, cloud(rng, s.bbox, 3000), inp)
    o.group("combinations", csg, o.n(160, 3000), limit=40)

    def many(rng, k):
        d = 2 + k % 2
        n = int([2, 3, 4, 5, 8, 9, 10, 16, 17, 33][k % 10])
        ops = [rand_shape(rng, d, 2)[0] for _ in range(n)]
        for cls in ("Union", "Intersection", "Difference"):
            s = getattr(sdf, cls)(ops)
            check(o, f"{cls} of {n}", s, cloud(rng, s.bbox, 2000), {"n": n, "cls": cls})
            lo = [min(q.bbox[j] for q in ops) if j % 2 == 0 else max(q.bbox[j] for q in ops) for j in range(2 * d)]
            if cls == "Union":
                x = cloud(rng, lo, 3000)
                check(o, f"{cls} of {n}", s, x, {"n": n, "cls": cls})
    o.group("many operands", many, o.n(20, 200), limit=30)

    def smooth_id(rng, k):
        """smooth intersections and differences never exceed the operands"""
        d = 2 + k % 2
        ops = [rand_shape(rng, d, 2)[0] for _ in range(2)]
        for cls in ("Intersection", "Difference"):
            s = getattr(sdf, cls)(ops, smoothness=float(rng.uniform(0.01, 2)))
            check(o, f"smooth {cls}", s, cloud(rng, s.bbox, 2000), {"cls": cls})
    o.group("smooth intersection/difference", smooth_id, o.n(30, 300), limit=20)

    def bulge(rng, k):
        """known finding: the smooth union of overlapping shapes bulges outside the operand boxes"""
        s = sdf.Union([sdf.Disk([-1.0, 0.0], 1.0), sdf.Disk([1.0, 0.0], 1.0)], smoothness=2.0)
        x = np.array([[0.0, 1.1]])
        check(o, "smooth union of unit disks at (-1,0) and (1,0), k=2", s, x, {}, key="smooth-union-bulge")
    o.group("smooth union bulge", bulge, 1)

    def corners(rng, k):
        """the reported corners of boxes are the corners of the box"""
        for d, kind in ((2, "Rectangle"), (3, "Cube")):
            par = sh.params(rng, kind, s=1.0)
            kw = sh.transform(rng, d)
            s = sh.make(kind, par, **kw)
            import itertools
            want = np.array(list(itertools.product(*np.array(s.bbox).reshape(-1, 2))))
            o.check(util.close(np.asarray(s.corners), want, 1e-9), f"{kind}{par}{kw}: corners are not those of the box",
                    {"got": s.corners, "want": want})
    o.group("corners", corners, o.n(40, 400))
