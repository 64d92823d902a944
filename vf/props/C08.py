"""C08 volumes, centroids, quality, determinants and radius-edge ratios"""
from ..hlp import *
from ..run import H
from .. import cxx, shims, symnp
from ..logic import ssqrt, smin

ASSUMPTIONS = ["CGAL::circumcenter / squared distance of exact triangles and tetrahedra (library)",
               "quality is stated for non-degenerate triangles (three distinct vertices)"]


def coords(p, t, i, k):
    return [ex(p.at(t.at(i, k), d)) for d in range(p.shape[1])]


def det3(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0])
            + a[2] * (b[0] * c[1] - b[1] * c[0]))


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def volume(dim):
    def run(c, X):
        w = world()
        p, t, nv, nt = mesh(c, dim)
        v0, v1 = p.buf.version, t.buf.version
        i = idx(c, nt)
        r = w.fn(GEO, "simp_vol")(p, t)
        X.oblige(c, "one volume per element", shape_is(r, nt))
        P = [coords(p, t, i, k) for k in range(dim + 1)]
        v = ex(r[i])
        X.reached(c, "value")
        u = [sub(P[k], P[0]) for k in range(1, dim + 1)]
        if dim == 2:
            X.oblige(c, "determinant formula", 2 * v == u[0][0] * u[1][1] - u[0][1] * u[1][0])
        else:
            X.oblige(c, "determinant formula", 6 * v == det3(*u))
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"simp_vol dim={dim}", [f"{GEO}:simp_vol"], run)


def centroid(dim):
    def run(c, X):
        w = world()
        p, t, nv, nt = mesh(c, dim)
        v0, v1 = p.buf.version, t.buf.version
        i = idx(c, nt)
        r = w.fn(GEO, "get_centroids")(p, t, dim=dim)
        X.oblige(c, "one centroid per element", shape_is(r, nt, dim))
        P = [coords(p, t, i, k) for k in range(dim + 1)]
        for d in range(dim):
            s = P[0][d]
            for k in range(1, dim + 1):
                s = s + P[k][d]
            X.oblige(c, f"mean of the vertices, coordinate {d}", (dim + 1) * ex(r[i, d]) == s)
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"get_centroids dim={dim}", [f"{GEO}:get_centroids"], run)


def quality():
    def run(c, X):
        c.canon = "poly"
        w = world()
        p, t, nv, nt = mesh(c, 2)
        v0, v1 = p.buf.version, t.buf.version
        i = idx(c, nt)
        P = [coords(p, t, i, k) for k in range(3)]
        r = w.fn(GEO, "simp_qual")(p, t)
        X.oblige(c, "one value per element", shape_is(r, nt))
        sq = []
        for q, k in ((0, 1), (0, 2), (1, 2)):
            d = sub(P[q], P[k])
            sq.append(d[0] * d[0] + d[1] * d[1])
        c.assume(And([s > 0 for s in sq]))
        u, q = sub(P[1], P[0]), sub(P[2], P[0])
        area = u[0] * q[1] - u[1] * q[0]
        c.assume(area != 0)
        L = [ex(ssqrt(S(s))) for s in sq]
        v = ex(r[i])
        X.reached(c, "value")
        a, b, cc = L
        P_, N = a + b + cc, (b + cc - a) * (cc + a - b) * (a + b - cc)
        heron = P_ * N == 4 * area * area
        X.cut(c, "Heron", heron)
        tri = [a > 0, b > 0, cc > 0, a + b > cc, a + cc > b, b + cc > a]
        for s_, l in zip(sq, L):
            X.derive(c, "side length is positive", l > 0, [s_ > 0])
        for f in tri[3:]:
            X.derive(c, "triangle inequality holds", f, [a > 0, b > 0, cc > 0, area != 0, heron], gen=[a, b, cc, area])
        square = (v * (a * b * cc)) * (v * (a * b * cc)) == N * N
        X.derive(c, "square of the value", square, tri, gen=L)
        X.derive(c, "not negative", v >= 0, tri, gen=L)
        X.derive(c, "twice the inradius over the circumradius", v * (a * b * cc) == N,
                 tri + [v >= 0, square], gen=L + [v])
        X.derive(c, "at most one", v <= 1, tri + [v * (a * b * cc) == N], gen=L + [v])
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H("simp_qual", [f"{GEO}:simp_qual"], run)


FG = "geometry/cpp/fast_geometry.cpp"
DEL = "generation/cpp/delaunay.cpp"


class Pt:
    def __init__(self, *xs):
        self.c = xs
        for k, nm in zip(xs, "xyz"):
            setattr(self, nm, lambda k=k: k)


class Cgal:
    """contract of the CGAL constructions: functions of the coordinates of the points they are given;
    circumcenter is the centre and squared_radius the squared radius of their circumscribed ball"""

    def Point(self, *xs):
        return Pt(*xs)

    Point3 = Point_2 = Point_3 = Point

    def circumcenter(self, *pts):
        return Pt(*[centre(pts, k) for k in range(len(pts) - 1)])

    def squared_radius(self, *pts):
        return sqradius(pts)


def sqradius(pts):
    xs = [ex(x) for p in pts for x in p.c]
    return S(z3.Function(f"squared_radius{len(pts) - 1}", *([R] * len(xs)), R)(*xs))


def centre(pts, k):
    xs = [ex(x) for p in pts for x in p.c]
    return S(z3.Function(f"circumcenter{len(pts) - 1}_{k}", *([R] * len(xs)), R)(*xs))


def det_cxx(n):
    name = f"calc_{n}x{n}determinant"

    def run(c, X):
        u = cxx.Unit(FG)
        m = arr(c, "M", (n, n))
        v0 = m.buf.version
        r = u.fn(name)(m)
        want = shims.det_rows([[m.at(i, j) for j in range(n)] for i in range(n)])
        X.oblige(c, "Leibniz expansion", ex(r) == ex(want))
        unmodified(X, c, "the matrix", (m, v0))
    return H(f"cxx:{name}", [f"fast_geometry.cpp:{name}", f"fast_geometry.cpp:c_{name}"], run)


def balls_cxx(dim):
    name = f"circumballs{dim}"

    def run(c, X):
        u = cxx.Unit(DEL, cgal=Cgal())
        n = iv(c, "n", 0)
        v = arr(c, "V", ((dim + 1) * n, dim))
        v0 = v.buf.version
        r = u.fn(name)(v)
        X.oblige(c, "one ball per element", shape_is(r, n, dim + 1))
        i = idx(c, n)
        X.reached(c, "value")
        pts = [Pt(*[v.at((dim + 1) * i + k, d) for d in range(dim)]) for k in range(dim + 1)]
        for d in range(dim):
            X.oblige(c, f"centre of the element's own ball, coordinate {d}", ex(r[i, d]) == ex(centre(pts, d)))
        X.oblige(c, "squared radius of the element's own ball", ex(r[i, dim]) == ex(sqradius(pts)))
        unmodified(X, c, "the vertices", (v, v0))
    return H(f"cxx:{name}", [f"delaunay.cpp:{name}", f"delaunay.cpp:c_{name}"], run)


def balls_contract(dim):
    """what the Python code may assume of _circumballs2/3 (verified by the cxx: harnesses)"""
    def f(v):
        v = symnp.asarray(v)
        rd = v.snap()
        n = symnp.norm_dim(v.shape[0] // (dim + 1))

        def el(i, k):
            pts = [Pt(*[rd((dim + 1) * i + q, d) for d in range(dim)]) for q in range(dim + 1)]
            return symnp.select([lambda d=d: centre(pts, d) for d in range(dim)] + [lambda: sqradius(pts)], k)
        return symnp.SymArray((n, dim + 1), el, "f")
    return f


def reratio(dim):
    def run(c, X):
        from ..pyload import AnyMod
        m = AnyMod("_delaunay")
        c.canon = "poly"
        m._circumballs2, m._circumballs3 = balls_contract(2), balls_contract(3)
        w = world(_delaunay=m)
        p, t, nv, nt = mesh(c, dim)
        v0, v1 = p.buf.version, t.buf.version
        r = w.fn(GEO, "calc_re_ratios")(p, t, dim=dim)
        X.oblige(c, "one ratio per element", shape_is(r, nt))
        i = idx(c, nt)
        X.reached(c, "value")
        P = [coords(p, t, i, k) for k in range(dim + 1)]
        r2 = sqradius([Pt(*[S(x) for x in q]) for q in P])
        edges = []
        for a in range(dim + 1):
            for b in range(a + 1, dim + 1):
                d = sub(P[a], P[b])
                e = d[0] * d[0]
                for k in range(1, dim):
                    e = e + d[k] * d[k]
                edges.append(e)
        v = tidy(c, r[i])
        c.assume(And([e > 0 for e in edges]))
        c.assume(ex(r2) >= 0)
        L = [ssqrt(S(e)) for e in edges]
        mn = L[0]
        for l in L[1:]:
            mn = smin(mn, l)
        Le = [ex(l) for l in L]
        for e, l in zip(edges, Le):
            X.derive(c, "edge length is positive", l > 0, [e > 0])
        X.derive(c, "own circumradius over own shortest edge", v * ex(mn) == ex(ssqrt(r2)), [l > 0 for l in Le],
                 gen=Le + [ex(ssqrt(r2))])
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"calc_re_ratios dim={dim}", [f"{GEO}:calc_re_ratios"], run)


def harnesses():
    return [volume(2), volume(3), centroid(2), centroid(3), quality(), det_cxx(3), det_cxx(4), balls_cxx(2),
            balls_cxx(3), reratio(2), reratio(3)]
