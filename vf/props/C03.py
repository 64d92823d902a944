"""C03 bounding boxes enclose the shapes

composition:  value(T(x)) = value0(x)              (C02)
              value0(x) <= 0  ->  x in box0         (harness 'base')
              x in box  ->  image(x) in new box     (harnesses for the three builders and for the
                                                     complete constructor with one transformation)
"""
import itertools

from ..hlp import *
from ..run import H
from . import C02

ASSUMPTIONS = C02.ASSUMPTIONS + [
    "the smooth union of overlapping shapes bulges outside the union of the operand boxes (known finding, oracle)"]


def inbox(b, x):
    return And([And(ex(b[2 * k]) <= x[k], x[k] <= ex(b[2 * k + 1])) for k in range(len(x))])


def base(cls):
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        par, dim = C02.params(c, cls)
        if cls in ("Disk", "Ball"):
            c.assume(par[1] > 0)
        if cls in ("Rectangle", "Cube"):
            c.assume(And([par[0][2 * k] < par[0][2 * k + 1] for k in range(dim)]))
        if cls == "Prism":
            c.assume(And(par[0] > 0, par[1] > 0))
        s = getattr(sdf, cls)(*par)
        X.oblige(c, "box is a tuple of 2*dim numbers", isinstance(s.bbox, tuple) and len(s.bbox) == 2 * dim)
        n = iv(c, "n", 0)
        x = arr(c, "X", (n, dim))
        i = idx(c, n)
        v = s.eval(x)[i]
        xs = [x.uf(i.e, z3.IntVal(k)) for k in range(dim)]
        c.assume(ex(v) <= 0)
        X.reached(c, "inside")
        for k in range(dim):
            X.oblige(c, f"axis {k} lower", ex(s.bbox[2 * k]) <= xs[k])
            X.oblige(c, f"axis {k} upper", xs[k] <= ex(s.bbox[2 * k + 1]))
    return H(f"base {cls}", [f"{SDF}:{cls}.__init__", f"{SDF}:{cls}.eval"], run, timeout=30)


def linear_hints(c, coef, lo, hi, x):
    """coef*x between coef*lo and coef*hi (valid lemma for lo<=x<=hi)"""
    return [z3.Implies(coef >= 0, z3.And(coef * lo <= coef * x, coef * x <= coef * hi)),
            z3.Implies(coef <= 0, z3.And(coef * hi <= coef * x, coef * x <= coef * lo))]


def transform(cls, dim, rot, st, tr, corners_too=False):
    """complete constructor: every point of the untransformed box is mapped into the reported box"""
    def run(c, X):
        c.canon = True
        w = world()
        sdf = w.module(SDF)
        b = [c.fresh(f"b{k}", R) for k in range(2 * dim)]
        for k in range(dim):
            c.assume(b[2 * k] <= b[2 * k + 1])
        angles = [None] * 3
        kw = {}
        for k in rot:
            angles[k] = rv(c, f"a{k}")
            c.assume(angles[k].e != 0)
        if rot:
            kw["rotate"] = [a if a is not None else 0.0 for a in angles]
        u = alpha = t = None
        if st:
            u = C02.unit(c, dim)
            alpha = c.fresh("alpha", R)
            c.assume(alpha > 0)
            c.positive = {alpha.get_id(): alpha}
            kw["stretch"] = symnp.asarray([S(alpha * u[k]) for k in range(dim)])
        if tr:
            t = [rv(c, f"t{k}") for k in range(dim)]
            kw["translate"] = symnp.asarray(t)
        s = getattr(sdf, cls)(tuple(S(x) for x in b), **kw)
        xs = [c.fresh(f"x{k}", R) for k in range(dim)]
        for k in range(dim):
            c.assume(And(b[2 * k] <= xs[k], xs[k] <= b[2 * k + 1]))
        X.reached(c, "constructed")
        nb = s.bbox
        X.oblige(c, "box has 2*dim entries", len(nb) == 2 * dim)
        y = C02.image(xs, dim, angles, u, alpha, t)
        rows = []
        for k in range(dim):       # coefficients of the linear part
            row = []
            for j in range(dim):
                e = [z3.RealVal(1 if m == j else 0) for m in range(dim)]
                yy = C02.image(e, dim, angles, u, alpha, None)
                row.append(canon(yy[k]))
            rows.append(row)
        for k in range(dim):
            hints = []
            for j in range(dim):
                cf = c.fresh("cf", R)
                c.assume(cf == rows[k][j])
                # lemma instances, stated on the expanded products
                p = lambda v: canon(rows[k][j] * v)
                hints += [z3.Or(z3.And(p(b[2 * j]) <= p(xs[j]), p(xs[j]) <= p(b[2 * j + 1])),
                                z3.And(p(b[2 * j + 1]) <= p(xs[j]), p(xs[j]) <= p(b[2 * j])))]
            yk = canon(y[k])
            g = linearise(c, hints + [], [ex(nb[2 * k]) <= yk, yk <= ex(nb[2 * k + 1])], X)
            for nm, f in zip(("lower", "upper"), g):
                X.oblige(c, f"image inside the box, axis {k} {nm}", f)
        # the lemma used above, once, with its own proof
        q, lo, hi, z = (c.fresh(v, R) for v in ("q", "lo", "hi", "z"))
        X.oblige(c, "lemma: a product is monotone in one factor", z3.Implies(z3.And(lo <= z, z <= hi), z3.Or(
            z3.And(q * lo <= q * z, q * z <= q * hi), z3.And(q * hi <= q * z, q * z <= q * lo))))
        if getattr(s, "corners", None) is not None and corners_too:
            cs = symnp.asarray(s.corners)
            want = list(itertools.product(*[(nb[2 * k], nb[2 * k + 1]) for k in range(dim)]))
            X.oblige(c, "corners are the corners of the box", cs.shape == (2 ** dim, dim))
            for r, wv in enumerate(want):
                for k in range(dim):
                    X.oblige(c, f"corner {r},{k}", ex(cs.at(r, k)) == ex(wv[k]))
    nm = f"{cls} box rot={''.join('xyz'[k] for k in rot) or '-'}" + (" stretch" if st else "") + (
        " translate" if tr else "")
    return H(nm, [f"{SDF}:{cls}.__init__", f"{SDF}:_configure_manipulations", f"{SDF}:_build_stretch",
                  f"{SDF}:_build_rotation", f"{SDF}:_build_translation", f"{SDF}:corners"], run, timeout=40)


def linearise(c, hints, goals, X):
    """replace every nonlinear monomial by a variable (weaker hypotheses: only what is
    needed is kept), giving a linear problem"""
    names = {}

    def mono(e):
        return names.setdefault(e.get_id(), (e, c.fresh("mono", R)))[1]
    memo = {}

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        d = e.decl().kind()
        if d == z3.Z3_OP_MUL:
            ch = e.children()
            nums = [x for x in ch if z3.is_rational_value(x) or z3.is_int_value(x)]
            rest = [x for x in ch if not (z3.is_rational_value(x) or z3.is_int_value(x))]
            if len(rest) > 1 or (len(rest) == 1 and rest[0].num_args() and rest[0].decl().kind() == z3.Z3_OP_MUL):
                flat = []
                st = list(rest)
                while st:
                    x = st.pop()
                    if x.decl().kind() == z3.Z3_OP_MUL:
                        st += x.children()
                    elif z3.is_rational_value(x):
                        nums.append(x)
                    else:
                        flat.append(x)
                flat.sort(key=lambda x: x.get_id())
                key = tuple(x.get_id() for x in flat)
                if key not in names:
                    names[key] = (flat, c.fresh("mono", R))
                r = names[key][1]
                for v in nums:
                    r = v * r
            else:
                r = e
        elif e.num_args() and d != z3.Z3_OP_UNINTERPRETED:
            r = rebuild_(e, [walk(x) for x in e.children()])
        else:
            r = e
        memo[k] = (e, r)
        c.hold(e)
        return r
    from ..logic import rebuild as rebuild_
    hs = [walk(h) for h in hints]
    gs = [walk(g) for g in goals]
    return [z3.Implies(z3.And(*hs), g) for g in gs]


def csg_box(cls, dim, n_ops):
    """union / intersection / difference of any operands whose boxes enclose them"""
    def run(c, X):
        w = world()
        sdf = w.module(SDF)
        n = iv(c, "m", 1) if n_ops is None else n_ops
        V = c.fresh_fn("V", I, I, R)
        Bx = c.fresh_fn("B", I, I, R)
        pts = iv(c, "n", 0)
        x = arr(c, "X", (pts, dim))
        i = idx(c, pts)

        class Dom:
            def __init__(self, k):
                self.k = k
                self.dim = dim
                self.corners = None
                self.bbox = tuple(S(Bx(ex(k), z3.IntVal(j))) for j in range(2 * dim))

            def eval(self, p):
                return symnp.SymArray((p.shape[0],), lambda r: S(V(ex(self.k), ex(r))), "f")
        doms = symnp.SymList(n, Dom) if n_ops is None else [Dom(k) for k in range(n)]
        # every operand is enclosed by its own box
        xs = [x.uf(i.e, z3.IntVal(k)) for k in range(dim)]
        c.assume_all([n], lambda k: z3.Implies(V(ex(k), i.e) <= 0, z3.And(*[
            z3.And(Bx(ex(k), z3.IntVal(2 * j)) <= xs[j], xs[j] <= Bx(ex(k), z3.IntVal(2 * j + 1)))
            for j in range(dim)])))
        c.note(n, z3.IntVal(0))
        s = getattr(sdf, cls)(doms)
        v = s.eval(x)[i]
        c.assume(ex(v) <= 0)
        X.reached(c, "inside")
        for k in range(dim):
            X.oblige(c, f"axis {k} lower", ex(s.bbox[2 * k]) <= xs[k])
            X.oblige(c, f"axis {k} upper", xs[k] <= ex(s.bbox[2 * k + 1]))
    return H(f"{cls} box dim={dim} " + ("any number of operands" if n_ops is None else f"{n_ops} operands"),
             [f"{SDF}:{cls}.__init__", f"{SDF}:{cls}.eval"], run)


def harnesses():
    hs = [base(k) for k in ("Disk", "Ball", "Rectangle", "Cube", "Torus", "Prism", "Cylinder")]
    for rot in ((), (0,)):
        for st, tr in itertools.product((0, 1), repeat=2):
            if not (rot and st):
                hs.append(transform("Rectangle", 2, rot, st, tr, corners_too=True))
    rots = [r for k in range(1, 4) for r in itertools.combinations(range(3), k)]
    for rot in rots:
        hs.append(transform("Cube", 3, rot, 0, 0))
    hs.append(transform("Cube", 3, (), 1, 0))
    hs.append(transform("Cube", 3, (), 0, 1, corners_too=True))
    for dim in (2, 3):
        for cls in ("Union", "Intersection"):
            hs.append(csg_box(cls, dim, None))
        hs.append(csg_box("Difference", dim, 2))
        hs.append(csg_box("Difference", dim, 4))
    return hs
