"""C04 set algebra of combined shapes, for any number of operands"""
from ..hlp import *
from ..run import H

ASSUMPTIONS = ["operands are arbitrary functions of the query points (one value per point)",
               "deprecated string/deepcopy helpers (show) are outside the property"]


def operands(c, dim, n, pts):
    V = c.fresh_fn("V", I, I, R)
    Bx = c.fresh_fn("B", I, I, R)
    seen = []

    class Dom:
        def __init__(self, k):
            self.k = k
            self.dim = dim
            self.corners = None
            self.bbox = tuple(S(Bx(ex(k), z3.IntVal(j))) for j in range(2 * dim))

        def eval(self, p):
            seen.append(p)
            return symnp.SymArray((p.shape[0],), lambda r: S(V(ex(self.k), ex(r))), "f")
    doms = symnp.SymList(n, Dom) if isinstance(n, S) else [Dom(k) for k in range(n)]
    return doms, V, seen


def sharp(cls, dim, n_ops):
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        n = iv(c, "m", 1) if n_ops is None else n_ops
        pts = iv(c, "n", 0)
        x = arr(c, "X", (pts, dim))
        v0 = x.buf.version
        doms, V, seen = operands(c, dim, n, pts)
        i = idx(c, pts)
        s = getattr(sdf, cls)(doms)
        r = s.eval(x)
        X.oblige(c, "one value per point", shape_is(r, pts))
        v = ex(r[i])
        X.reached(c, "value")
        X.oblige(c, "dimension is that of the operands", s.dim == dim)
        unmodified(X, c, "the query array", (x, v0))
        for p in seen[:4]:
            X.oblige(c, "operands are evaluated at the query points", And(
                [shape_is(p, pts, dim)] + [ex(p.at(i, k)) == x.uf(i.e, z3.IntVal(k)) for k in range(dim)]))

        def sg(k):
            t = V(ex(k), i.e)
            return z3.If(ex(k) > 0, -t, t) if cls == "Difference" else t
        if n_ops is None:
            k = idx(c, n, "k")
            X.oblige(c, "bounds every operand", v <= sg(k) if cls == "Union" else v >= sg(k))
            X.oblige(c, "attained by an operand", Ex([n], lambda q: v == sg(q)))
        else:
            for k in range(n):
                X.oblige(c, f"bounds operand {k}", v <= sg(S(z3.IntVal(k))) if cls == "Union" else
                         v >= sg(S(z3.IntVal(k))))
            X.oblige(c, "attained by an operand", z3.Or(*[v == sg(S(z3.IntVal(k))) for k in range(n)]))
    return H(f"{cls} sharp dim={dim} " + ("any number of operands" if n_ops is None else f"{n_ops} operands"),
             [f"{SDF}:{cls}.__init__", f"{SDF}:{cls}.eval"], run)


def smooth(cls, dim, n):
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        pts = iv(c, "n", 0)
        x = arr(c, "X", (pts, dim))
        doms, V, seen = operands(c, dim, n, pts)
        k = rv(c, "k")
        c.assume(k.e > 0)
        i = idx(c, pts)
        s = getattr(sdf, cls)(doms, smoothness=k)
        r = s.eval(x)
        X.oblige(c, "one value per point", shape_is(r, pts))
        v = ex(r[i])
        X.reached(c, "value")
        vals = [V(z3.IntVal(q), i.e) for q in range(n)]
        if cls == "Difference":
            vals = [vals[0]] + [-t for t in vals[1:]]
        w0 = vals[0]
        for t in vals[1:]:
            w0 = z3.If(w0 <= t, w0, t) if cls == "Union" else z3.If(w0 >= t, w0, t)
        sign = -1 if cls == "Union" else 1
        X.oblige(c, "on the stated side of the sharp value", sign * (v - w0) >= 0)
        X.oblige(c, "within k/4 per blend", sign * (v - w0) <= (n - 1) * k.e / 4)
        if n == 2:
            gap = z3.If(vals[0] >= vals[1], vals[0] - vals[1], vals[1] - vals[0])
            X.oblige(c, "sharp beyond the blending width", z3.Implies(gap >= k.e, v == w0))
    return H(f"{cls} smooth dim={dim} {n} operands", [f"{SDF}:{cls}.eval", f"{SDF}:{cls}._smooth_{cls.lower()}",
                                                     f"{SDF}:_loop_call"], run)


def repeat():
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        pts = iv(c, "n", 0)
        x = arr(c, "X", (pts, 3))
        v0 = x.buf.version
        b = [c.fresh(f"b{k}", R) for k in range(6)]
        per = [c.fresh(f"P{k}", R) for k in range(3)]
        c.assume(And([q > 0 for q in per]))
        F = c.fresh_fn("F", R, R, R, R)
        asked = []

        class Dom:
            dim, corners, bbox = 3, None, None

            def eval(self, q):
                asked.append(q)
                rd = q.snap()
                return symnp.SymArray((q.shape[0],), lambda r: S(F(ex(rd(r, 0)), ex(rd(r, 1)), ex(rd(r, 2)))), "f")
        s = sdf.Repeat(tuple(S(v) for v in b), Dom(), [S(v) for v in per])
        i = idx(c, pts)
        r = s.eval(x)
        X.oblige(c, "one value per point", shape_is(r, pts))
        v = ex(r[i])
        X.oblige(c, "the base shape is evaluated once", len(asked) == 1)
        q = [ex(asked[0].at(i, k)) for k in range(3)]
        xs = [x.uf(i.e, z3.IntVal(k)) for k in range(3)]
        for k in range(3):
            X.oblige(c, f"axis {k}: wrapped into the base cell",
                     z3.And(2 * q[k] >= -per[k], 2 * q[k] <= per[k]))
            m = (xs[k] - q[k]) / per[k]
            X.oblige(c, f"axis {k}: moved by whole periods", xs[k] - q[k] == per[k] * z3.ToReal(
                z3.ToInt((xs[k] + per[k] / 2) / per[k])))
        cube = None
        for k in range(3):
            for t in (b[2 * k] - xs[k], xs[k] - b[2 * k + 1]):
                cube = t if cube is None else z3.If(cube >= t, cube, t)
        f = F(*q)
        X.oblige(c, "value is the wrapped shape clipped to the box", v == z3.If(f >= cube, f, cube))
        X.oblige(c, "reports the given box", And([ex(s.bbox[k]) == b[k] for k in range(6)]))
        unmodified(X, c, "the query array", (x, v0))
    return H("Repeat", [f"{SDF}:Repeat.__init__", f"{SDF}:Repeat.eval"], run)


def harnesses():
    hs = []
    for dim in (2, 3):
        for cls in ("Union", "Intersection", "Difference"):
            hs.append(sharp(cls, dim, None if dim == 2 or cls != "Difference" else 3))
            hs.append(smooth(cls, dim, 2))
    hs += [sharp("Difference", 2, n) for n in (2, 3, 4)]
    hs += [smooth(cls, 2, 3) for cls in ("Union", "Intersection", "Difference")]
    hs.append(repeat())
    return hs
