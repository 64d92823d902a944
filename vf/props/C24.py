"""C24 triangulation objects: vertex and cell tables, hand-over of points to CGAL"""
import z3

from ..hlp import *
from ..run import H
from .. import cxx, symnp, logic
from ..logic import Unsupported, is_num
from ..cxx import Vec, It, Pair, nidx, merge

ASSUMPTIONS = ["CGAL's triangulation classes: what is inserted is what the triangulation consists of (every point the position of exactly one "
               "finite vertex, carrying the info of a pair with this point), its finite cells are positively oriented, have empty circumscribed "
               "balls and cover the convex hull; finite_vertices and finite_cells/faces enumerate each vertex and cell once, in an order that "
               "only changes when the triangulation is modified; move and remove act on the vertex of the handle they are given (exercised by the concrete cross-check)",
               "the Python caller reads the vertices before the cells, as the property says"]
SRC = {2: "generation/cpp/delaunay_class.cpp", 3: "generation/cpp/delaunay_class3.cpp"}
ONE = "generation/cpp/delaunay.cpp"


class Pt:
    def __init__(self, *xs):
        self.c = xs
        for k, nm in zip(xs, "xyz"):
            setattr(self, nm, lambda k=k: k)

    def cartesian(self, k):
        if not is_num(k):
            raise Unsupported("coordinate of unknown number")
        return self.c[k]

    __getitem__ = cartesian

    def cmerge(self, c, o):
        return Pt(*[merge(c, a, b) for a, b in zip(self.c, o.c)])


class Ref:
    def __init__(self, vec, k):
        object.__setattr__(self, "vec", vec)
        object.__setattr__(self, "k", k)

    def __setattr__(self, nm, x):
        self.vec[self.k] = x


class Vh:
    """vertex handle: the k-th finite vertex"""

    def __init__(self, dt, k):
        self.dt, self.k = dt, nidx(k)

    v = property(lambda self: self)

    def cconvert(self):
        return self

    def ccopy(self):
        return self

    def point(self):
        return Pt(*[f(self.k) for f in self.dt.X])

    def info(self):
        return self.dt.info[self.k]

    def place_info(self):
        return Ref(self.dt.info, self.k)

    def cmerge(self, c, o):
        if o.dt is not self.dt:
            raise Unsupported("vertices of different triangulations")
        return Vh(self.dt, merge(c, self.k, o.k))


class Ch:
    """cell handle"""

    def __init__(self, dt, j):
        self.dt, self.j = dt, nidx(j)

    v = property(lambda self: self)

    def cconvert(self):
        return self

    def ccopy(self):
        return self

    def vertex(self, m):
        m = nidx(m)
        if is_num(m):
            if not 0 <= m <= self.dt.dim:
                ctx().need(z3.BoolVal(False), "vertex number of a cell")
                raise cxx.dead_end("vertex number of a cell")
        else:
            ctx().need(z3.And(ex(m) >= 0, ex(m) <= self.dt.dim), "vertex number of a cell")
        return Vh(self.dt, self.dt.cell(self.j, m))

    def cmerge(self, c, o):
        return Ch(self.dt, merge(c, self.j, o.j))


class Seq:
    """the finite vertices or cells in CGAL's order"""

    def __init__(self, n, get):
        self.n, self.get = n, get

    def __getitem__(self, i):
        i = nidx(i)
        c = ctx()
        if not getattr(c, "mute", False):
            c.need(z3.And(ex(i) >= 0, ex(i) < ex(self.n)), "dereferenced iterator is not past the end")
        if not is_num(i):
            c.note(self.n, ex(i))
        return self.get(i)

    def handles(self):
        return symnp.SymList(self.n, lambda k: self.get(k))

    def begin(self):
        return It(self, 0)

    def end(self):
        return It(self, self.n)


class DT:
    """contract of CGAL's Delaunay triangulation with an unsigned info per vertex"""
    cxx_vecs = ("info", "moved", "removed")

    def __init__(self, dim, empty=True):
        self.dim, self.handed, self.nv, self.nc = dim, [], 0, 0
        self.moved = Vec(0, lambda j: cxx.Undef("move"), "o")
        self.removed = Vec(0, lambda j: cxx.Undef("remove"), "o")
        self.info = Vec(0, lambda j: 0, "i", "unsigned int")
        self.X = []
        if not empty:
            c = ctx()
            self.fill(c, iv(c, "nv", 0))
            self.info = self.given = arrvec(c, "info", self.nv, "i")

    def fill(self, c, nv):
        self.nv, self.nc = nv, iv(c, "nc", 0)
        f = [c.fresh_fn(f"X{d}", I, R) for d in range(self.dim)]
        self.X = [lambda k, g=g: S(g(ex(k))) for g in f]
        cv = c.fresh_fn("cell", I, I, I)

        def cell(j, m):
            k = S(cv(ex(j), ex(m)))
            c.note(self.nv, k.e)
            return k
        self.cell = cell
        c.assume_all([self.nc, self.dim + 1], lambda j, m: z3.And(cv(ex(j), ex(m)) >= 0, cv(ex(j), ex(m)) < ex(nv)))

    def ccopy(self):
        return self

    def ccopy_as(self, name):
        return self

    def clean(self):
        for v in (self.info, self.moved, self.removed):
            if v.log is not None:
                raise Unsupported("enumeration or insertion inside a loop")
        for v in (self.moved, self.removed):
            if not (is_num(v.n) and v.n == 0):
                raise Unsupported("the triangulation is enumerated after a modification")

    def number_of_vertices(self):
        return self.nv

    def number_of_faces(self):
        if self.dim != 2:
            raise Unsupported("number_of_faces in 3D")
        return self.nc

    def number_of_finite_cells(self):
        if self.dim != 3:
            raise Unsupported("number_of_finite_cells in 2D")
        return self.nc

    def number_of_cells(self):
        # includes those of the infinite vertex
        c = ctx()
        n = iv(c, "allcells", 0)
        c.assume(n.e >= ex(self.nc))
        return n

    def verts(self):
        self.clean()
        return Seq(self.nv, lambda k: Vh(self, k))

    def cells(self):
        self.clean()
        return Seq(self.nc, lambda j: Ch(self, j))

    def finite_vertices_begin(self):
        return self.verts().begin()

    def finite_vertices_end(self):
        return self.verts().end()

    def finite_faces_begin(self):
        if self.dim != 2:
            raise Unsupported("finite_faces in 3D")
        return self.cells().begin()

    def finite_faces_end(self):
        return self.cells().end()

    def finite_cells_begin(self):
        if self.dim != 3:
            raise Unsupported("finite_cells in 2D")
        return self.cells().begin()

    def finite_cells_end(self):
        return self.cells().end()

    finite_vertex_handles = verts
    finite_face_handles = finite_cell_handles = cells

    def insert(self, a, b=None):
        if not isinstance(a, It) or not isinstance(a.vec, Vec) or b is None or b.vec is not a.vec:
            raise Unsupported("insertion of something else")
        self.clean()
        c = ctx()
        c.need(z3.And(ex(a.pos) >= 0, ex(a.pos) <= ex(b.pos), ex(b.pos) <= ex(a.vec.n)), "inserted range lies inside the vector")
        off, rd = a.pos, a.vec.rd
        n = nidx(b.pos - a.pos)
        get = lambda i: rd(nidx(off + i))
        first = is_num(self.nv) and self.nv == 0 and not self.handed
        self.handed.append((n, get))
        new = iv(c, "inserted", 0)
        self.handed_result = new
        if first:
            self.fill(c, iv(c, "nv", 0))
            src = c.fresh_fn("src", I, I)
            self.src = src

            def one(k):
                q = get(S(src(ex(k))))
                c.note(n, src(ex(k)))
                return z3.And(src(ex(k)) >= 0, src(ex(k)) < ex(n),
                              *[ex(self.X[d](k)) == ex(q.first.c[d]) for d in range(self.dim)])
            c.assume_all([self.nv], one)
            self.info = Vec(self.nv, lambda k: get(S(src(ex(k)))).second, "i", "unsigned int")
        else:
            self.X = self.cell = None
            self.nv = self.nc = cxx.Undef("size after insertion")
        return new

    def move(self, h, q):
        if not isinstance(h, Vh) or not isinstance(q, Pt):
            raise Unsupported("move of something else")
        self.moved.push_back(Pair(h, q))
        return h

    displace_vertex = move_if_no_collision = None

    def remove(self, h):
        if not isinstance(h, Vh):
            raise Unsupported("removal of something else")
        self.removed.push_back(h)


def arrvec(c, name, n, kind):
    f = c.fresh_fn(name, I, symnp.SORT[kind])
    return Vec(n, lambda j: S(f(ex(j))), kind, "double" if kind == "f" else "int")


class Cgal:
    def __init__(self, dim):
        self.dim = dim

    def Point(self, *xs):
        if len(xs) == 1:
            return xs[0]
        if len(xs) != self.dim:
            raise Unsupported("number of coordinates of a point")
        return Pt(*xs)

    Point3 = Point_2 = Point_3 = Point

    def make(self, *a):
        if a:
            return a[0]
        self.dt = DT(self.dim)
        return self.dt

    DT = Delaunay = Delaunay3 = Delaunay_triangulation_2 = Delaunay_triangulation_3 = make


def unit(dim, rel=None):
    return cxx.Unit(rel or SRC[dim], cgal=Cgal(dim))


def lab(dim, name):
    return f"{SRC[dim].split('/')[-1]}:{name}"


def tables(dim):
    """reading the vertices, then the cells"""
    def run(c, X):
        u = unit(dim)
        dt = DT(dim, empty=False)
        nv, nc, Xs, cell = dt.nv, dt.nc, dt.X, dt.cell
        P = u.bound("get_finite_vertices")(dt)
        X.oblige(c, "one row per vertex", shape_is(P, nv, dim))
        k = idx(c, nv, "k")
        X.reached(c, "vertices")
        for d in range(dim):
            X.oblige(c, f"row k holds vertex k's position, coordinate {d}", ex(P[k, d]) == ex(Xs[d](k)))
        X.oblige(c, "every vertex carries its row", ex(dt.info.read(k)) == k.e)
        T = u.bound("get_finite_cells")(dt)
        X.oblige(c, "one row per cell", shape_is(T, nc, dim + 1))
        j = idx(c, nc, "j")
        for m in range(dim + 1):
            t = T[j, m]
            X.oblige(c, f"entry {m}: a row of the vertex table", And(ex(t) >= 0, ex(t) < ex(nv)))
            X.oblige(c, f"entry {m}: the row of the cell's vertex {m}", ex(t) == ex(cell(j, m)))
        X.oblige(c, "reading modifies nothing", dt.moved.n == 0 and dt.removed.n == 0 and not dt.handed)
    return H(f"cxx:tables dim={dim}", [lab(dim, "get_finite_vertices"), lab(dim, "get_finite_cells")], run)


def insertion(dim):
    def run(c, X):
        u = unit(dim)
        dt = DT(dim, empty=False)
        n = iv(c, "n", 0)
        p = arrvec(c, "p", dim * n, "f")
        q = p.clone()
        u.bound("insert")(dt, p)
        X.oblige(c, "the points are handed over at once", len(dt.handed) == 1)
        if len(dt.handed) != 1:
            return
        cnt, get = dt.handed[0]
        X.oblige(c, "as many points as given", ex(cnt) == n.e)
        i = idx(c, n)
        X.reached(c, "points")
        g = get(i)
        for d in range(dim):
            X.oblige(c, f"point i is the i-th of the input, coordinate {d}", ex(g.first.c[d]) == ex(q.rd(nidx(dim * i + d))))
        X.oblige(c, "nothing is moved or removed", dt.moved.n == 0 and dt.removed.n == 0)
    return H(f"cxx:insert dim={dim}", [lab(dim, "insert")], run)


def moving(dim):
    def run(c, X):
        u = unit(dim)
        dt = DT(dim, empty=False)
        n = iv(c, "n", 0)
        which, p = arrvec(c, "which", n, "i"), arrvec(c, "p", dim * n, "f")
        w0, p0 = which.clone(), p.clone()
        c.assume_all([n], lambda i: z3.And(ex(w0.rd(i)) >= 0, ex(w0.rd(i)) < ex(dt.nv)))
        u.bound("move")(dt, which, p)
        X.oblige(c, "one move per listed vertex", ex(dt.moved.n) == n.e)
        i = idx(c, n)
        X.reached(c, "moves")
        g = dt.moved.read(i)
        X.oblige(c, "the i-th move concerns the i-th listed vertex", ex(g.first.k) == ex(w0.rd(i)))
        for d in range(dim):
            X.oblige(c, f"to the i-th new position, coordinate {d}", ex(g.second.c[d]) == ex(p0.rd(nidx(dim * i + d))))
        X.oblige(c, "nothing is removed or inserted", dt.removed.n == 0 and not dt.handed)
    return H(f"cxx:move dim={dim}", [lab(dim, "move")], run)


def removing(dim):
    def run(c, X):
        u = unit(dim)
        dt = DT(dim, empty=False)
        n = iv(c, "n", 0)
        which = arrvec(c, "which", n, "i")
        w0 = which.clone()
        c.assume_all([n], lambda i: z3.And(ex(w0.rd(i)) >= 0, ex(w0.rd(i)) < ex(dt.nv)))
        u.bound("remove")(dt, which)
        X.oblige(c, "one removal per listed vertex", ex(dt.removed.n) == n.e)
        i = idx(c, n)
        X.reached(c, "removals")
        X.oblige(c, "the i-th removal concerns the i-th listed vertex", ex(dt.removed.read(i).k) == ex(w0.rd(i)))
        X.oblige(c, "nothing is moved or inserted", dt.moved.n == 0 and not dt.handed)
    return H(f"cxx:remove dim={dim}", [lab(dim, "remove")], run)


def counting(dim):
    name = "number_of_faces" if dim == 2 else "number_of_cells"

    def run(c, X):
        u = unit(dim)
        dt = DT(dim, empty=False)
        r = u.bound(name)(dt)
        X.reached(c, "count")
        X.oblige(c, "the number of finite cells", ex(r) == ex(dt.nc))
    return H(f"cxx:{name}", [lab(dim, name)], run)


def oneshot(dim):
    name = f"delaunay{dim}"

    def run(c, X):
        u = unit(dim, ONE)
        n = iv(c, "n", 0)
        xs = [arr(c, f"x{d}", (n,)) for d in range(dim)]
        v0 = [x.buf.version for x in xs]
        T = u.fn(name)(*xs)
        dt = getattr(u.lib.cgal, "dt", None)
        if dt is None or len(dt.handed) != 1:
            raise Unsupported("the triangulation is built differently")
        X.oblige(c, "as many points as coordinates", ex(dt.handed[0][0]) == n.e)
        i = idx(c, n)
        g = dt.handed[0][1](i)
        for d in range(dim):
            X.oblige(c, f"point i has the i-th coordinates, coordinate {d}", ex(g.first.c[d]) == ex(xs[d][i]))
        X.oblige(c, "one row per cell", shape_is(T, dt.nc, dim + 1))
        j = idx(c, dt.nc, "j")
        X.reached(c, "cells")
        for m in range(dim + 1):
            t = T[j, m]
            X.oblige(c, f"entry {m}: an index into the arrays", And(ex(t) >= 0, ex(t) < n.e))
            k = dt.cell(j, m)
            for d in range(dim):
                X.oblige(c, f"entry {m}: the index of a point at the cell's vertex {m}, coordinate {d}",
                         ex(xs[d].at(t)) == ex(dt.X[d](k)))
        unmodified(X, c, "the coordinates", *zip(xs, v0))
    return H(f"cxx:{name}", [f"delaunay.cpp:{name}", f"delaunay.cpp:c_{name}"], run)


def harnesses():
    return [f(dim) for dim in (2, 3) for f in (tables, insertion, moving, removing, counting, oneshot)]
