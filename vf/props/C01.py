"""C01 primitive signed distances"""
from ..hlp import *
from ..run import H
from .. import cxx, shims

ASSUMPTIONS = ["drectangle_fast / dblock_fast contract is verified on the C++ source by the harnesses cxx:*"]


def pts(c, dim):
    n = iv(c, "n", 0)
    p = arr(c, "P", (n, dim))
    return n, p


def query(c, X, shape, dim):
    n, p = pts(c, dim)
    v0 = p.buf.version
    v = shape.eval(p)
    X.oblige(c, "one value per query point", shape_is(v, n))
    i = idx(c, n)
    X.reached(c, "query")
    X.oblige(c, "query points untouched", p.buf.version == v0)
    return ex(v[i]), [p.uf(i.e, z3.IntVal(k)) for k in range(dim)]


def sphere(cls, dim):
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        x0 = [rv(c, f"x{k}") for k in range(dim)]
        r = rv(c, "r")
        c.assume(r > 0)
        s = getattr(sdf, cls)(x0, r)
        v, p = query(c, X, s, dim)
        d2 = sum(((p[k] - x0[k].e) * (p[k] - x0[k].e) for k in range(1, dim)), (p[0] - x0[0].e) * (p[0] - x0[0].e))
        X.oblige(c, "value + r is the distance to the centre", And(v + r.e >= 0, (v + r.e) * (v + r.e) == d2))
        X.oblige(c, "negative iff interior", Iff(v < 0, d2 < r.e * r.e))
        X.oblige(c, "positive iff outside", Iff(v > 0, d2 > r.e * r.e))
    return H(f"{cls}.eval", [f"{SDF}:{cls}.__init__", f"{SDF}:{cls}.eval"], run)


def box(cls, dim):
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        b = [rv(c, f"b{k}") for k in range(2 * dim)]
        for k in range(dim):
            c.assume(b[2 * k] < b[2 * k + 1])
        s = getattr(sdf, cls)(tuple(b))
        v, p = query(c, X, s, dim)
        faces = []
        for k in range(dim):
            faces += [p[k] - b[2 * k].e, b[2 * k + 1].e - p[k]]
        X.oblige(c, "value is minus the smallest face distance",
                 And([-v <= f for f in faces] + [Or([-v == f for f in faces])]))
        X.oblige(c, "negative iff interior", Iff(v < 0, And([f > 0 for f in faces])))
        X.oblige(c, "positive iff outside", Iff(v > 0, Or([f < 0 for f in faces])))
    return H(f"{cls}.eval", [f"{SDF}:{cls}.__init__", f"{SDF}:{cls}.eval", f"{SDF}:corners"], run)


def torus(c, X):
    w = world()
    sdf = w.module(SDF)
    r1, r2 = rv(c, "r1"), rv(c, "r2")
    c.assume(And(r1 > 0, r2 > 0))
    s = sdf.Torus(r1, r2)
    v, (x, y, z) = query(c, X, s, 3)
    q = c.fresh("q", R)
    c.assume(And(q >= 0, q * q == x * x + z * z))
    d2 = (q - r1.e) * (q - r1.e) + y * y
    X.oblige(c, "value + r2 is the distance to the centre circle",
             And(v + r2.e >= 0, (v + r2.e) * (v + r2.e) == d2))
    X.oblige(c, "negative iff inside the tube", Iff(v < 0, d2 < r2.e * r2.e))
    X.oblige(c, "positive iff outside the tube", Iff(v > 0, d2 > r2.e * r2.e))


def prism(c, X):
    w = world()
    sdf = w.module(SDF)
    b, h = rv(c, "b"), rv(c, "h")
    c.assume(And(b > 0, h > 0))
    s = sdf.Prism(b, h)
    v, (x, y, z) = query(c, X, s, 3)
    k = z3.RealVal("0.866025")
    inner = And(z < h.e, -z < h.e, k * x + y / 2 < b.e / 2, -k * x + y / 2 < b.e / 2, -y < b.e / 2)
    closed = And(z <= h.e, -z <= h.e, k * x + y / 2 <= b.e / 2, -k * x + y / 2 <= b.e / 2, -y <= b.e / 2)
    X.oblige(c, "negative iff interior", Iff(v < 0, inner))
    X.oblige(c, "positive iff outside", Iff(v > 0, Not(closed)))


def cylinder(c, X):
    w = world()
    sdf = w.module(SDF)
    h, r = rv(c, "h"), rv(c, "r")
    c.assume(And(h > 0, r > 0))
    s = sdf.Cylinder(h, r)
    v, (x, y, z) = query(c, X, s, 3)
    q = c.fresh("q", R)
    c.assume(And(q >= 0, q * q == x * x + z * z))
    dr, dh = q - r.e, z3.If(y >= 0, y, -y) - h.e / 2
    mx = z3.If(dr > dh, dr, dh)
    pr, ph = z3.If(dr > 0, dr, 0), z3.If(dh > 0, dh, 0)
    X.oblige(c, "inside: value is minus the depth", Imp(And(dr <= 0, dh <= 0), v == mx))
    X.oblige(c, "outside: value is the distance", Imp(Or(dr > 0, dh > 0), And(v >= 0, v * v == pr * pr + ph * ph)))
    X.oblige(c, "negative iff interior", Iff(v < 0, And(dr < 0, dh < 0)))
    X.oblige(c, "positive iff outside", Iff(v > 0, Or(dr > 0, dh > 0)))


def boxes_cxx(dim):
    """the compiled kernel satisfies the contract the Python harnesses assume (shims.py)"""
    name = "drectangle_fast" if dim == 2 else "dblock_fast"

    def run(c, X):
        u = cxx.Unit("geometry/cpp/fast_geometry.cpp")
        n, p = pts(c, dim)
        v0 = p.buf.version
        b = [rv(c, f"b{k}") for k in range(2 * dim)]
        r = u.fn(name)(p, *b)
        X.oblige(c, "one value per query point", shape_is(r, n))
        i = idx(c, n)
        X.reached(c, "query")
        want = getattr(shims, name)(p, *b)
        X.oblige(c, "minus the smallest face distance", ex(r[i]) == ex(want[i]))
        X.oblige(c, "query points untouched", p.buf.version == v0)
    k = "drectangle" if dim == 2 else "dblock"
    return H(f"cxx:{name}", [f"fast_geometry.cpp:{name}", f"fast_geometry.cpp:c_{k}"], run)


def harnesses():
    hs = [boxes_cxx(2), boxes_cxx(3), sphere("Disk", 2), sphere("Ball", 3), box("Rectangle", 2), box("Cube", 3),
          H("Torus.eval", [f"{SDF}:Torus.__init__", f"{SDF}:Torus.eval", f"{SDF}:_length"], torus),
          H("Prism.eval", [f"{SDF}:Prism.__init__", f"{SDF}:Prism.eval"], prism),
          H("Cylinder.eval", [f"{SDF}:Cylinder.__init__", f"{SDF}:Cylinder.eval", f"{SDF}:_length"], cylinder)]
    return hs
