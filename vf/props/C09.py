"""C09 dihedral angles and gradients of tetrahedra (compiled kernels)"""
from ..hlp import *
from ..run import H
from .. import cxx, logic
from ..logic import ssqrt, Unsupported

ASSUMPTIONS = ["std::acos is the inverse cosine: acos(x) in [0, pi] and monotone on [-1,1] (library)",
               "dihedral angles are characterised by their cosine (cosine is injective on [0, pi])"]
FG = "geometry/cpp/fast_geometry.cpp"


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def volgrad():
    def run(c, X):
        u = cxx.Unit(FG)
        n = iv(c, "n", 0)
        P = [arr(c, f"p{k}", (n, 3)) for k in (1, 2, 3)]
        vs = [(p, p.buf.version) for p in P]
        r = u.fn("calc_volume_grad")(*P)
        X.oblige(c, "one gradient per tetrahedron", shape_is(r, n, 3))
        i = idx(c, n)
        X.reached(c, "value")
        q1, q2, q3 = [[ex(p.at(i, d)) for d in range(3)] for p in P]
        # p0 -> det[p1-p0, p2-p0, p3-p0]/6 is affine in p0 with gradient -g, g the reported vector
        g = [ex(r[i, d]) for d in range(3)]
        e, f = sub(q2, q1), sub(q3, q1)
        w = cross(e, f)
        for d in range(3):
            X.oblige(c, f"derivative of the volume, coordinate {d}", 6 * g[d] == w[d])
        unmodified(X, c, "an argument", *vs)
    return H("cxx:calc_volume_grad", ["fast_geometry.cpp:calc_volume_grad", "fast_geometry.cpp:c_calc_volume_grad"],
             run)


def harnesses():
    return [volgrad()]


def dual_mul(a, b):
    return (a[0] * b[0], a[0] * b[1] + a[1] * b[0])


def dual_add(a, b, s=1):
    return (a[0] + s * b[0], a[1] + s * b[1])


def dual_dot(a, b):
    r = dual_mul(a[0], b[0])
    for k in (1, 2):
        r = dual_add(r, dual_mul(a[k], b[k]))
    return r


def dual_cross(a, b):
    f = lambda i, j: dual_add(dual_mul(a[i], b[j]), dual_mul(a[j], b[i]), -1)     # noqa
    return [f(1, 2), f(2, 0), f(0, 1)]


def circgrad():
    """squared circumradius = |D|^2 / (4 a^2), D = |u|^2 v x w + |v|^2 w x u + |w|^2 u x v, a = u.(v x w)
    (u, v, w the vertices p0, p1, p2 relative to p3); its derivative by p0 in dual numbers"""
    def run(c, X):
        un = cxx.Unit(FG)
        n = iv(c, "n", 0)
        P = [arr(c, f"p{k}", (n, 3)) for k in range(4)]
        vs = [(p, p.buf.version) for p in P]
        r = un.fn("calc_circumsphere_grad")(*P)
        X.oblige(c, "one gradient per tetrahedron", shape_is(r, n, 3))
        unmodified(X, c, "an argument", *vs)
        i = idx(c, n)
        X.reached(c, "value")
        g = [resolve(c, r[i, d]) for d in range(3)]
        base = [c.fresh(f"o{d}", R) for d in range(3)]
        q = [[c.fresh(f"{nm}{d}", R) for d in range(3)] for nm in "uvw"]
        pairs = [(ex(P[k].at(i, d)), base[d] + q[k][d]) for k in range(3) for d in range(3)]
        pairs += [(ex(P[3].at(i, d)), base[d]) for d in range(3)]
        g = [z3.simplify(z3.substitute(e, *pairs)) for e in g]
        u, v, w = q
        zero, one = z3.RealVal(0), z3.RealVal(1)
        a = dot(u, cross(v, w))
        c.assume(a != 0)
        for j in range(3):
            du = [(u[d], one if d == j else zero) for d in range(3)]
            dv, dw = [(x, zero) for x in v], [(x, zero) for x in w]
            t = [dual_cross(dv, dw), dual_cross(dw, du), dual_cross(du, dv)]
            s = [dual_dot(x, x) for x in (du, dv, dw)]
            D = [dual_add(dual_add(dual_mul(s[0], t[0][d]), dual_mul(s[1], t[1][d])), dual_mul(s[2], t[2][d]))
                 for d in range(3)]
            A = dual_dot(du, t[0])
            if j == 0:
                for x, nm in ((u, "p0"), (v, "p1"), (w, "p2")):
                    X.oblige(c, f"spec: D/(2a) is equidistant from p3 and {nm}",
                             dot([y[0] for y in D], x) == a * dot(x, x))
            N = dual_dot(D, D)
            # (N/(4 a^2))' = (N' a - 2 N a') / (4 a^3)
            X.oblige(c, f"derivative of the squared circumradius, coordinate {j}",
                     g[j] == (N[1] * a - 2 * N[0] * A[1]) / (4 * a * a * a))
    return H("cxx:calc_circumsphere_grad",
             ["fast_geometry.cpp:calc_circumsphere_grad", "fast_geometry.cpp:c_calc_circumsphere_grad"], run,
             timeout=60)


EDGES = [(2, 3), (1, 3), (1, 2), (0, 3), (0, 2), (0, 1)]     # the documented order of the six angles


def leaves(e, out):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        leaves(e.children()[1], out)
        leaves(e.children()[2], out)
    elif not any(e.eq(x) for x in out):
        out.append(e)
    return out


def subst_roots(c, e, pairs):
    """replace the coordinates; the square roots keep their defining square"""
    roots, memo = [], {}

    def walk(x):
        if x.get_id() in memo:
            return memo[x.get_id()]
        if z3.is_app(x) and x.decl().eq(logic.Sqrt):
            y = logic.Sqrt(z3.simplify(z3.substitute(walk(x.arg(0)), *pairs), som=True))
            c.hold(y)
            c.squares[y.get_id()] = (y, y.arg(0))
            if not any(y.eq(r) for r in roots):
                roots.append(y)
        elif x.num_args() and (x.sort() != R or not z3.is_app(x) or x.decl().kind() != z3.Z3_OP_UNINTERPRETED):
            y = logic.rebuild(x, [walk(k) for k in x.children()])
        else:
            y = x
        c.hold(x)
        memo[x.get_id()] = y
        return y
    return z3.substitute(walk(e), *pairs), roots


def clearing(c, e):
    """the product D of denominators such that e*D has none (with multiplicity), as a list of atoms"""
    rg = logic.Ring(c)
    p = rg.reduce(rg.poly(e))
    neg = {}
    for m in p:
        for a, k in m:
            if k < 0:
                neg[a] = max(neg.get(a, 0), -k)
    if any(not isinstance(a, int) for a in neg):
        raise Unsupported("denominator is not a product of roots")
    return [rg.atoms[a] for a, k in neg.items() for _ in range(k)]


def prod(xs):
    r = z3.RealVal(1)
    for x in xs:
        r = r * x
    return r


def dihedral(k):
    def run(c, X):
        u = cxx.Unit(FG)
        p, t, nv, nt = mesh(c, 3)
        v0, v1 = p.buf.version, t.buf.version
        r = u.fn("calc_dihedral_angles")(p, t)
        X.oblige(c, "six angles per tetrahedron", shape_is(r, 6 * nt, 1))
        i = idx(c, nt)
        phi = resolve(c, r[6 * i + k, 0])
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
        X.reached(c, "value")
        if not (z3.is_app(phi) and phi.decl().eq(logic.Acos)):
            raise Unsupported("angle is not an inverse cosine")
        arg = phi.arg(0)
        X.oblige(c, "argument of the inverse cosine is in [-1,1], flat elements included", And(arg >= -1, arg <= 1))
        X.oblige(c, "angle is in [0, pi]", And(phi >= 0, phi <= logic.PI))
        # the true angle: at the edge (a,b) between the faces (a,b,d) and (a,b,f)
        a, b = EDGES[k]
        d, f = [q for q in range(4) if q not in (a, b)]
        base = [c.fresh(f"o{q}", R) for q in range(3)]
        names = {b: "e", d: "f", f: "g"}
        diff = {q: [c.fresh(f"{names[q]}{j}", R) for j in range(3)] for q in names}
        pairs = []
        for q in range(4):
            for j in range(3):
                pairs.append((ex(p.at(t.at(i, q), j)), base[j] if q == a else base[j] + diff[q][j]))
        arg, roots = subst_roots(c, arg, pairs)
        e, f_, g = diff[b], diff[d], diff[f]
        n1, n2 = cross(e, f_), cross(e, g)
        N1, N2, m = dot(n1, n1), dot(n2, n2), dot(n1, n2)
        A, B_, C = dot(e, e), dot(f_, f_), dot(g, g)
        X.cut(c, "Lagrange 1", N1 == A * B_ - dot(e, f_) * dot(e, f_))
        X.cut(c, "Lagrange 2", N2 == A * C - dot(e, g) * dot(e, g))
        X.cut(c, "Cauchy-Schwarz identity", N1 * N2 - m * m == A * dot(e, cross(f_, g)) * dot(e, cross(f_, g)))
        c.assume(And(N1 > 0, N2 > 0))      # faces of positive area
        sq = [A >= 0, B_ >= 0, C >= 0]
        for h in sq:
            X.cut(c, "sum of squares", h)
        for nm, q, L, N in (("first", B_, N1 == A * B_ - dot(e, f_) * dot(e, f_), N1),
                            ("second", C, N2 == A * C - dot(e, g) * dot(e, g), N2)):
            ef = dot(e, f_) if nm == "first" else dot(e, g)
            X.derive(c, f"edges of the {nm} face are not null", z3.And(A > 0, q > 0), [A >= 0, q >= 0, N > 0, L],
                     gen=[A, q, N, ef])
        xs = [x for x in leaves(arg, []) if not z3.is_rational_value(x)]
        if len(xs) != 1:
            raise Unsupported("clamped cosine expected")
        x = xs[0]
        dn = clearing(c, x)
        for s in roots:
            if not any(s.eq(y) for y in dn):
                continue
            q = s.arg(0)
            for mul, val in ((1, A), (1, B_), (1, C), (A * B_, N1), (A * C, N2), (1, N1), (1, N2), (1, N1 * N2)):
                if logic.Ring(c).is_zero(q * mul - val):
                    X.cut(c, "radicand", q * mul == val)
                    X.derive(c, "root is positive", s > 0, [A > 0, B_ > 0, C > 0, N1 > 0, N2 > 0, q * mul == val],
                             gen=[A, B_, C, N1, N2, q] if not z3.is_rational_value(q) else [A, B_, C, N1, N2])
                    break
            else:
                raise Unsupported("root of an unrecognised quantity")
        D = prod(dn)
        X.cut(c, "cosine over the common denominator", x * D == m)
        X.cut(c, "denominator is the product of the face normals' lengths", D * D == N1 * N2)
        X.derive(c, "denominator is positive", D > 0, [s > 0 for s in dn], gen=list(dn))
        CS = N1 * N2 - m * m == A * dot(e, cross(f_, g)) * dot(e, cross(f_, g))
        det = dot(e, cross(f_, g))
        X.derive(c, "cosine of the angle times the normals' lengths is the product of the normals", arg * D == m,
                 [x * D == m, D > 0, D * D == N1 * N2, CS, A >= 0], gen=[x, D, N1, N2, m, A, det])
    return H(f"cxx:calc_dihedral_angles angle {k}",
             ["fast_geometry.cpp:calc_dihedral_angles", "fast_geometry.cpp:c_calc_dihedral_angles",
              "fast_geometry.cpp:l2_norm", "fast_geometry.cpp:dot_product", "fast_geometry.cpp:cross_product"], run)


def harnesses():
    return [volgrad(), circgrad()] + [dihedral(k) for k in range(6)]
