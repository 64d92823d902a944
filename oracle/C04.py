import numpy as np
import shapes as sh
import util
import C03
from SeismicMesh.geometry import signed_distance_functions as sdf

BOUNDS = "up to 33 operands, nested, smoothing 1e-3..3, batches up to 4097"


class Leaf:
    """operand with prescribed values"""

    def __init__(self, f, d, calls=None):
        self.f, self.dim, self.bbox, self.corners = f, d, (-1.0, 1.0) * d, None

    def eval(self, x):
        return self.f(x)


def sharp(cls, vals):
    v = np.array(vals)
    if cls == "Union":
        return v.min(axis=0)
    if cls == "Intersection":
        return v.max(axis=0)
    v = v.copy()
    v[1:] *= -1
    return v.max(axis=0)


def leaves(rng, n, d, grid=False):
    out = []
    for _ in range(n):
        a, b = rng.normal(size=d), rng.normal()
        if grid:
            out.append(Leaf(lambda x, a=a, b=b: np.round(x @ a + b, 0), d))
        else:
            out.append(Leaf(lambda x, a=a, b=b: x @ a + b, d))
    return out


def run(o):
    szs = util.sizes((sh.F,), cap=5000)

    def hard(rng, k):
        d = 2 + k % 2
        n = [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 33][k % 13]
        m = szs[k % len(szs)]
        x = rng.normal(size=(m, d)) * 2
        real = rng.random() < 0.5
        if real:
            ops = [C03.rand_shape(rng, d, 2)[0] for _ in range(n)]
        else:
            ops = leaves(rng, n, d, rng.random() < 0.3)
        vals = [np.asarray(q.eval(x)) for q in ops]
        for cls in ("Union", "Intersection", "Difference"):
            s = getattr(sdf, cls)(list(ops))
            x0 = x.copy()
            v = np.asarray(s.eval(x))
            w = sharp(cls, vals)
            o.check(v.shape == (m,) and np.array_equal(v, w), f"{cls} of {n} operands is not the sharp set value",
                    {"n": n, "points": x[:5], "got": v[:5], "want": w[:5]})
            o.check(np.array_equal(x, x0), f"{cls}: points modified", {})
            o.check(s.dim == d, f"{cls}: dimension", {})
            e = np.asarray(getattr(sdf, cls)(list(ops), smoothness=0.0).eval(x))
            o.check(np.array_equal(e, w), f"{cls} with smoothness 0.0 is not sharp", {"n": n})
    o.group("sharp", hard, o.n(150, 2500), limit=60)

    def smooth(rng, k):
        d = 2 + k % 2
        ops = leaves(rng, 2, d) if k % 3 else [C03.rand_shape(rng, d, 2)[0] for _ in range(2)]
        m = szs[(k * 7) % len(szs)]
        x = rng.normal(size=(m, d)) * 2
        kk = float(rng.choice([1e-3, 0.1, 0.5, 1.0, 3.0, rng.uniform(0.01, 3)]))
        vals = [np.asarray(q.eval(x)) for q in ops]
        for cls in ("Union", "Intersection", "Difference"):
            s = getattr(sdf, cls)(list(ops), smoothness=kk)
            v = np.asarray(s.eval(x))
            w = sharp(cls, vals)
            inp = {"cls": cls, "k": kk, "n": m}
            o.check(v.shape == (m,), "one value per point", inp)
            dev = (w - v) if cls == "Union" else (v - w)
            tol = 1e-12 * (1 + np.abs(w))
            b = np.nonzero((dev < -tol) | (dev > kk / 4 + tol))[0]
            if len(b):
                o.check(False, f"smooth {cls} (k={kk}) deviates by {dev[b[0]]} from the sharp value",
                        {**inp, "point": x[b[0]], "got": v[b[0]], "sharp": w[b[0]]})
            gap = np.abs(vals[0] - vals[1]) if cls != "Difference" else np.abs(-vals[1] - vals[0])
            far = gap >= kk
            o.check(np.all(np.abs(dev[far]) <= tol[far]), f"smooth {cls}: not sharp beyond the blending width", inp)
            # continuity of the blend: exact value where both operands agree
            h = np.maximum(kk - gap, 0)
            o.check(np.all(np.abs(dev - h * h / (4 * kk)) <= 1e-9 * (1 + np.abs(w))), f"smooth {cls}: blend value differs from h^2/4k", inp)
    o.group("smooth", smooth, o.n(120, 2000), limit=40)

    def smooth_many(rng, k):
        d = 2 + k % 2
        n = int(rng.integers(3, 7))
        ops = leaves(rng, n, d)
        x = rng.normal(size=(60, d)) * 2
        kk = 1e-7
        for cls in ("Union", "Intersection", "Difference"):
            v = np.asarray(getattr(sdf, cls)(list(ops), smoothness=kk).eval(x))
            w = sharp(cls, [q.eval(x) for q in ops])
            o.check(np.all(np.abs(v - w) <= n * kk), f"{cls} of {n} operands with small smoothing is not near the sharp value",
                    {"n": n, "got": v[:5], "want": w[:5]})
    o.group("smooth many", smooth_many, o.n(30, 300))

    def nested(rng, k):
        d = 2 + k % 2
        A, B, C = leaves(rng, 3, d)
        x = rng.normal(size=(50, d))
        a, b, c = A.f(x), B.f(x), C.f(x)
        s = sdf.Difference([sdf.Union([A, B]), sdf.Intersection([B, C])])
        o.check(np.array_equal(s.eval(x), np.maximum(np.minimum(a, b), -np.maximum(b, c))), "nested combination wrong", {})
    o.group("nested", nested, o.n(20))

    def repeat(rng, k):
        s = float(rng.choice([1.0, 10.0]))
        bb = []
        for _ in range(3):
            lo = rng.uniform(-4, 0) * s
            bb += [float(lo), float(lo + rng.uniform(1, 6) * s)]
        per = [float(v) for v in rng.uniform(0.4, 2.5, 3) * s]
        if rng.random() < 0.3:
            per = [per[0]] * 3
        dom = sdf.Ball([float(v) for v in rng.uniform(-.1, .1, 3) * s], float(rng.uniform(0.1, 0.6) * s)) if k % 2 else \
            sdf.Cube((-0.2 * s, 0.3 * s, -0.1 * s, 0.2 * s, -0.3 * s, 0.1 * s))
        R = sdf.Repeat(tuple(bb), dom, per)
        x = rng.uniform(-6, 6, (szs[k % len(szs)], 3)) * s
        x0 = x.copy()
        v = np.asarray(R.eval(x))
        P = np.array(per)
        q = x - P * np.floor(x / P + 0.5)
        b = np.array(bb).reshape(3, 2)
        cube = np.max(np.maximum(b[:, 0] - x, x - b[:, 1]), axis=1) if len(x) else np.zeros(0)
        w = np.maximum(dom.eval(q), cube)
        # points on a cell border may be wrapped to either side
        nb = np.min(np.abs(np.abs(q) - P / 2), axis=1) > 1e-9 * s if len(x) else np.zeros(0, bool)
        o.check(v.shape == w.shape and np.all(np.abs(v - w)[nb] <= 1e-9 * s), "Repeat: not the wrapped shape clipped to the box",
                {"bbox": bb, "period": per})
        o.check(np.array_equal(x, x0), "Repeat: points modified", {})
        o.check(tuple(R.bbox) == tuple(bb), "Repeat: box", {})
    o.group("repeat", repeat, o.n(60, 600), limit=20)
