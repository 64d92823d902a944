"""C11 Laplacian smoothing"""
from ..hlp import *
from ..run import H
from .. import symnp, logic
from ..logic import Unsupported
from ..loops import Inv
from ..pyload import Mod, AnyMod

ASSUMPTIONS = ["scipy's coo matrix adds the entries of equal row and column; the product of a sparse matrix with the "
               "coordinates and its row sums are the sums over its entries (opaque values with proved entries)",
               "every edge off the boundary is used by two triangles, so each neighbour of an interior vertex has the "
               "same weight in the average (definition of the boundary, C05)"]


def tri(c):
    nv, nt = iv(c, "nv", 3), iv(c, "nt", 1)
    p, t = arr(c, "P", (nv, 2)), arr(c, "T", (nt, 3), "i")
    c.assume_all([nt, 3], lambda e, k: z3.And(ex(t.at(e, k)) >= 0, ex(t.at(e, k)) < ex(nv)))
    return p, t, nv, nt


class Adjacency(symnp.Sparse):
    """the matrix with an entry for each ordered vertex pair of each triangle"""

    def __init__(self, g, data, shape=None, dtype=None, **k):
        self.g = g
        v, (i, j) = data
        self.v, self.i, self.j = symnp.asarray(v), symnp.asarray(i), symnp.asarray(j)
        g.entries.append((self, shape))

    def rowsum(self, axis):
        if axis != 1:
            raise Unsupported("column sums")
        return symnp.Matrix(self.g.W.copy())

    def __mul__(self, o):
        g = self.g
        x = o.a if isinstance(o, symnp.Matrix) else symnp.asarray(o)
        if g.now is None:
            raise Unsupported("product outside the iteration")
        k = g.now
        n, d = S(g.c.fresh("n", I)), S(g.c.fresh("d", I))
        g.c.note(g.nv, n.e)
        g.X.oblige(g.c, "the average is taken over the current vertices", shape_is(x, g.nv, 2))
        g.X.oblige(g.c, "the average is taken over the current vertices (coordinates)",
                   Imp(And(n.e >= 0, n.e < ex(g.nv), d.e >= 0, d.e < 2), ex(x.at(n, d)) == g.x(k, n, d)))
        g.steps.append(k)
        return symnp.Matrix(symnp.SymArray((g.nv, 2), lambda n, d: S(g.total(ex(k), ex(n), ex(d))), "f"))

    dot = __mul__
    __matmul__ = __mul__


class Smooth:
    """laplacian2 with the ghost sequence of averaged positions"""

    def __init__(self, c, X, fixed):
        self.c, self.X = c, X
        self.p, self.t, self.nv, self.nt = tri(c)
        self.entries, self.steps, self.now = [], [], None
        self.nb = iv(c, "nb", 0)
        self.bnd = arr(c, "bnd", (self.nb,), "i")
        c.assume_all([self.nb], lambda k: z3.And(ex(self.bnd.at(k)) >= 0, ex(self.bnd.at(k)) < ex(self.nv)))
        self.ne = iv(c, "ne", 1)
        self.edges = arr(c, "E", (self.ne, 2), "i")
        c.assume_all([self.ne, 2], lambda k, d: z3.And(ex(self.edges.at(k, d)) >= 0, ex(self.edges.at(k, d)) < ex(self.nv)))
        self.W = arr(c, "W", (self.nv, 1))
        self.total = c.fresh_fn("total", I, I, I, R)
        self.X_ = c.fresh_fn("x", I, I, I, R)
        self.imax = iv(c, "max_iter", 0)
        self.fixed = arr(c, "pfix", (iv(c, "nfix", 0), 2)) if fixed else None
        self.held = c.fresh_fn("held", I, B)      # boundary or nearest to a fixed point
        self.near = c.fresh_fn("nearest", R, R, I)

    def x(self, k, n, d):
        """ghost: position after k averaging steps"""
        v = self.X_(ex(k), ex(n), ex(d))
        if self.c.once(("x", v)):
            self.c.fact(z3.Implies(ex(k) == 0, v == ex(self.p.at(S(ex(n)), S(ex(d))))))
        return v

    def next(self, k, n, d):
        """definition of the next step"""
        a, b = self.x(k, n, d), self.x(S(ex(k) + 1), n, d)
        w = ex(self.W.at(S(ex(n)), 0))
        self.c.fact(z3.Implies(ex(k) >= 0, z3.If(self.held(ex(n)), b == a, b == self.total(ex(k), ex(n), ex(d)) / w)))
        return b

    def is_held(self, n):
        """boundary vertex, or nearest to some fixed point"""
        out = [Ex([self.nb], lambda k: z3.And(ex(self.bnd.at(k)) == n, self.place(ex(k))))]
        if self.fixed is not None:
            f = self.fixed
            out.append(Ex([f.shape[0]], lambda k: z3.And(self.target(k) == n, self.place(ex(k) + ex(self.nb)))))
        return Or(*out)

    def place(self, k):
        """position in the list of held vertices"""
        if self.fixed is not None:
            self.c.note(symnp.norm_dim(self.nb + self.fixed.shape[0]), z3.simplify(k))
        return z3.BoolVal(True)

    def target(self, k):
        return self.near(ex(self.fixed.at(S(ex(k)), 0)), ex(self.fixed.at(S(ex(k)), 1)))

    def go(self):
        c, X = self.c, self.X
        g = self
        c.assume_all([self.nv], lambda n: Iff(g.held(ex(n)), g.is_held(ex(n))))

        def boundary(ent, dim=2):
            alike(X, c, ent, g.t, "the boundary is that of this mesh")
            X.oblige(c, "boundary of a triangle mesh", dim == 2)
            return g.bnd.copy()

        def edges(ent, dim=2):
            alike(X, c, ent, g.t, "the edges are those of this mesh")
            return g.edges.copy()

        def nodes(env):
            v = [k for k in ("vertices",) if k in env]
            if not v:
                raise KeyError("vertices")
            return v[0]

        def at(v, n, d):
            a = v.a if isinstance(v, symnp.Matrix) else v
            return ex(a.at(S(ex(n)), S(ex(d))))

        def havoc(c, env, i):
            g.now = i
            v = symnp.SymArray((g.nv, 2), lambda n, d: S(g.x(i, n, d)), "f")
            # the type of the positions is irrelevant for the averaging step
            out = {nodes(env): v}
            L = arr(c, "L", (g.ne, 1))
            for k in env:
                if k == "L":
                    out[k] = L
            return out

        def holds(c, env, i):
            v = env[nodes(env)]
            a = v.a if isinstance(v, symnp.Matrix) else v
            return [("one position per vertex", shape_is(a, g.nv, 2)),
                    ("the vertices are the averaged positions", All([g.nv, 2], lambda n, d: step(v, i, n, d)))]

        def step(v, i, n, d):
            if not (symnp.is_num(i) and i == 0) and g.now is not None and z3.simplify(ex(i) - 1 - ex(g.now)).eq(z3.IntVal(0)):
                g.next(g.now, n, d)
            return at(v, n, d) == g.x(i, n, d)
        inv = Inv("smoothing", lambda i, e: i[1] == "laplacian2" and "vertices" in i[4], havoc, holds)
        def closest(node, nodes):
            """contract of _closest_node"""
            alike(X, c, nodes, g.p, "the nearest vertex is sought among the vertices")
            k = g.near(*[ex(logic.real(node.at(d))) for d in range(2)])
            c.fact(z3.And(k >= 0, k < ex(g.nv)))
            return S(k)
        w = world(stubs={f"{GEO}:get_boundary_vertices": boundary, f"{GEO}:get_edges": edges,
                         f"{GEO}:laplacian2._closest_node": lambda f: closest}, loops=[inv],
                  scipy=AnyMod("scipy", sparse=Mod("scipy.sparse", coo_matrix=lambda *a, **k: Adjacency(g, *a, **k))))
        return w.fn(GEO, "laplacian2")(self.p, self.t, max_iter=self.imax, tol=rv(c, "tol"), verbose=0, pfix=self.fixed)


def smooth(fixed):
    """the result is the position after at least one averaging step, held vertices never move"""
    def run(c, X):
        g = Smooth(c, X, fixed)
        v0, v1 = g.p.buf.version, g.t.buf.version
        t0 = g.t.copy()
        q, t = g.go()
        q = symnp.asarray(q.a if isinstance(q, symnp.Matrix) else q)
        alike(X, c, t, t0, "connectivity is unchanged")
        unmodified(X, c, "the mesh of the caller", (g.p, v0), (g.t, v1))
        X.oblige(c, "one position per vertex", shape_is(q, g.nv, 2))
        n, d = idx(c, g.nv, "n"), idx(c, 2, "d")
        if g.now is None:
            # left before any averaging: only a vertex without element is a reason
            X.oblige(c, "left alone only when a vertex has no neighbour", 
                     Ex([g.nv], lambda k: ex(g.W.at(S(ex(k)), 0)) == 0))
            alike(X, c, q, g.p, "left as it is")
            return
        X.reached(c, "smoothed")
        done = g.now if g.steps == [] else S(ex(g.now) + 1)
        for a in g.steps:
            X.oblige(c, "one average per step", ex(a) == ex(g.now))
        g.next(g.now, n, d)
        X.oblige(c, "the result is the position after some averaging steps", ex(q.at(n, d)) == g.x(done, n, d))
        X.oblige(c, "at most the requested number of steps", ex(done) <= g.imax.e)
        X.oblige(c, "a step is made when one is requested", Imp(g.imax.e >= 1, ex(done) >= 1))
        X.oblige(c, "all steps or the movement was below the tolerance", Or(ex(done) == g.imax.e, bool(g.steps)))
    return H(f"laplacian2 {'with' if fixed else 'without'} fixed points", [f"{GEO}:laplacian2"], run)


def induction():
    """a held vertex keeps its position through any number of steps, others are at the average"""
    def run(c, X):
        g = Smooth(c, X, False)
        k, n, d = iv(c, "k", 0), idx(c, g.nv, "n"), idx(c, 2, "d")
        c.assume(g.held(n.e))
        g.x(S(z3.IntVal(0)), n, d)
        X.reached(c, "held")
        X.oblige(c, "base", g.x(S(z3.IntVal(0)), n, d) == ex(g.p.at(n, d)))
        c.assume(g.x(k, n, d) == ex(g.p.at(n, d)))
        g.next(k, n, d)
        X.oblige(c, "step", g.x(S(k.e + 1), n, d) == ex(g.p.at(n, d)))
    return H("held vertices never move (induction over the steps)", [f"{GEO}:laplacian2"], run)


def entries(which):
    """the matrix has an entry 1 for each ordered vertex pair of each triangle"""
    def run(c, X):
        g = Smooth(c, X, False)
        got = []
        g.entries = got
        g.go()
        if not got:
            return
        if len(got) != 1:
            raise Unsupported("several matrices")
        m, shape = got[0]
        X.oblige(c, "one row and one column per vertex", And(ex(shape[0]) == ex(g.nv), ex(shape[1]) == ex(g.nv)))
        X.oblige(c, "six entries per triangle", And(*[shape_is(a, g.nt * 6) for a in (m.i, m.j, m.v)]))
        e = idx(c, g.nt, "e")
        X.reached(c, "entries")
        pairs = []
        for k in range(6):
            i, j = m.i.at(e * 6 + k), m.j.at(e * 6 + k)
            pairs.append((ex(i), ex(j)))
            X.oblige(c, f"entry {k} has the value 1", ex(m.v.at(e * 6 + k)) == 1)
        v = [ex(g.t.at(e, k)) for k in range(3)]
        # vertices of an element are different: name them
        c.assume(z3.And(v[0] != v[1], v[1] != v[2], v[0] != v[2]))
        for a in range(3):
            for b in range(3):
                if a != b:
                    X.oblige(c, f"the pair ({a},{b}) of the triangle is an entry, once",
                             sum(z3.If(z3.And(x == v[a], y == v[b]), z3.RealVal(1), z3.RealVal(0)) for x, y in pairs) == 1)
    return H("laplacian2 matrix", [f"{GEO}:laplacian2", f"{GEO}:_sparse"], run)


def closest():
    class Got(Exception):
        pass

    def run(c, X):
        n = iv(c, "n", 1)
        P, x = arr(c, "P", (n, 2)), arr(c, "x", (2,))

        def grab(f):
            raise Got(f)
        w = world(stubs={f"{GEO}:laplacian2._closest_node": grab})
        try:
            w.fn(GEO, "laplacian2")(P, arr(c, "T", (iv(c, "nt", 1), 3), "i"))
        except Got as g:
            f = g.args[0]
        else:
            raise Unsupported("the nearest vertex is found differently")
        k = f(x, P)
        j = idx(c, n, "j")

        def d2(i):
            return sum(ex((P.at(i, d) - x.at(d)) * (P.at(i, d) - x.at(d))) for d in range(2))
        X.reached(c, "nearest")
        X.oblige(c, "a vertex is found", And(ex(k) >= 0, ex(k) < ex(n)))
        X.oblige(c, "no vertex is nearer", d2(S(ex(k))) <= d2(j))
    return H("laplacian2._closest_node", [f"{GEO}:laplacian2"], run)


class Csr:
    """compressed rows: the entries of the triangles, rows set to zero, then the diagonal set"""

    def __init__(self, g, zero=None):
        self.g, self.zero, self.diag = g, zero if zero is not None else (lambda n: z3.BoolVal(False)), None
        self.shape = (g.nv, g.nv)
        self.indptr = Rows()
        self.data = Data(self)

    def diagonal(self):
        g = self.g
        return symnp.SymArray((g.nv,), lambda n: symnp.ite(S(self.zero(ex(n))), 0.0, S(g.deg(ex(n)))), "f")

    def setdiag(self, d):
        self.diag = symnp.asarray(d).copy()
        if shape_is(self.diag, self.g.nv) is not True:
            raise Unsupported("another diagonal")

    def tocsr(self, copy=False):
        return self

    def tocsc(self, copy=False):
        return self

    def entry(self, n, m):
        """entry in row n, column m /= n; the original one, or zero"""
        return z3.If(self.zero(n), z3.RealVal(0), self.g.off(n, m))

    def on(self, n):
        if self.diag is None:
            return z3.If(self.zero(n), z3.RealVal(0), self.g.deg(n))
        return ex(self.diag.at(S(n)))


class Rows:
    def __getitem__(self, k):
        return RowPtr(ex(k))


class RowPtr:
    def __init__(self, k):
        self.k = k


class Data:
    """the stored entries: a slice between consecutive row pointers is a row"""

    def __init__(self, m):
        self.m = m

    def __setitem__(self, k, v):
        if not (isinstance(k, slice) and k.step is None and isinstance(k.start, RowPtr) and isinstance(k.stop, RowPtr)
                and z3.simplify(k.stop.k - k.start.k).eq(z3.IntVal(1)) and symnp.is_num(v) and v == 0):
            raise Unsupported("another change of the matrix")
        old, b = self.m.zero, k.start.k
        if self.m.diag is not None:
            raise Unsupported("a row is cleared after the diagonal was set")
        self.m.zero = lambda n: z3.Or(old(n), n == b)


class Direct(Smooth):
    def __init__(self, c, X):
        super().__init__(c, X, False)
        self.deg, self.off = c.fresh_fn("deg", I, R), c.fresh_fn("off", I, I, R)
        self.coo, self.systems = [], []

    def go(self):
        c, X, g = self.c, self.X, self

        def boundary(ent, dim=2):
            alike(X, c, ent, g.t, "the boundary is that of this mesh")
            X.oblige(c, "boundary of a triangle mesh", dim == 2)
            return g.bnd.copy()

        def coo(data, shape=None, dtype=None, **k):
            v, (i, j) = data
            g.coo.append((symnp.asarray(v), symnp.asarray(i), symnp.asarray(j), shape))
            return Csr(g)

        def mat(env):
            m = [k for k, v in env.items() if isinstance(v, Csr)]
            if len(m) != 1:
                raise KeyError("matrix")
            return m[0]

        def havoc(c, env, i):
            z = c.fresh_fn("zero", I, B)
            return {mat(env): Csr(g, lambda n: z(n))}

        def holds(c, env, i):
            m = env[mat(env)]
            return [("the rows of the boundary vertices so far are zero",
                     All([g.nv], lambda n: Iff(m.zero(ex(n)), Ex([g.nb], lambda k: And(
                         ex(k) < ex(i), ex(g.bnd.at(k)) == ex(n))))))]
        inv = Inv("boundary rows", lambda i, e: i[1] == "laplacian2_fixed_point", havoc, holds)

        class Solver:
            def __init__(self, m):
                self.m = m

            def solve(self, b, return_info=False, **k):
                x = g.solve(self.m, b)
                return (x, iv(c, "info")) if return_info else x
        amg = Mod("pyamg", ruge_stuben_solver=lambda m, **k: Solver(m))
        w = world(stubs={f"{GEO}:get_boundary_vertices": boundary}, loops=[inv], pyamg=amg,
                  **{"scipy": AnyMod("scipy", sparse=Mod("scipy.sparse", coo_matrix=coo,
                                                         linalg=Mod("scipy.sparse.linalg", spsolve=g.solve))),
                     "scipy.sparse.linalg": Mod("scipy.sparse.linalg", spsolve=g.solve),
                     })
        return w.fn(GEO, "laplacian2_fixed_point")(self.p, self.t)

    def solve(self, m, b):
        """contract of a linear solver: some vector; recorded with its system"""
        x = arr(self.c, "x", (self.nv,))
        self.systems.append((m, symnp.asarray(b).copy(), x))
        return x


def direct():
    def run(c, X):
        g = Direct(c, X)
        v0, v1 = g.p.buf.version, g.t.buf.version
        t0 = g.t.copy()
        q, t = g.go()
        q = symnp.asarray(q)
        X.reached(c, "solved")
        alike(X, c, t, t0, "connectivity is unchanged")
        unmodified(X, c, "the mesh of the caller", (g.p, v0), (g.t, v1))
        X.oblige(c, "one position per vertex", shape_is(q, g.nv, 2))
        n, m = idx(c, g.nv, "n"), idx(c, g.nv, "m")
        isb = Ex([g.nb], lambda k: ex(g.bnd.at(k)) == n.e)
        for d in range(2):
            # the column is the solution of one of the systems solved
            got = None
            for s in g.systems:
                if z3.simplify(ex(q.at(n, d)) == ex(s[2].at(n))).eq(z3.BoolVal(True)):
                    got = s
            if got is None:
                raise Unsupported("the coordinates are not solutions of the systems")
            A, b, x = got
            X.oblige(c, f"coordinate {d}: row of a boundary vertex is that of the identity",
                     Imp(isb, And(A.on(n.e) == 1, A.entry(n.e, m.e) == 0)), rounds=3)
            X.oblige(c, f"coordinate {d}: right-hand side of a boundary vertex is its coordinate",
                     Imp(isb, ex(b.at(n)) == ex(g.p.at(n, d))), rounds=3)
            X.oblige(c, f"coordinate {d}: row of an interior vertex is that of the triangles",
                     Imp(Not(isb), And(A.on(n.e) == g.deg(n.e), A.entry(n.e, m.e) == g.off(n.e, m.e))), rounds=3)
            X.oblige(c, f"coordinate {d}: right-hand side of an interior vertex is zero",
                     Imp(Not(isb), ex(b.at(n)) == 0), rounds=3)
    return H("laplacian2_fixed_point", [f"{GEO}:laplacian2_fixed_point"], run)


def stencil():
    """the entries of the triangles: for each of its edges (i,j) +1 at (i,i) and (j,j), -1 at (i,j) and (j,i)"""
    def run(c, X):
        g = Direct(c, X)
        g.go()
        if len(g.coo) != 1:
            raise Unsupported("several matrices")
        v, i, j, shape = g.coo[0]
        X.oblige(c, "one row and one column per vertex", And(ex(shape[0]) == ex(g.nv), ex(shape[1]) == ex(g.nv)))
        X.oblige(c, "twelve entries per triangle", And(*[shape_is(a, g.nt * 12) for a in (v, i, j)]))
        e = idx(c, g.nt, "e")
        X.reached(c, "entries")
        out = []
        for q in range(12):
            pos = g.nt * q + e
            out.append((ex(i.at(pos)), ex(j.at(pos)), ex(logic.real(v.at(pos)))))
        V = [ex(g.t.at(e, k)) for k in range(3)]
        c.assume(z3.And(V[0] != V[1], V[1] != V[2], V[0] != V[2]))
        for a in range(3):
            for b in range(3):
                X.oblige(c, f"coefficient ({a},{b}) of a triangle",
                         sum(z3.If(z3.And(x == V[a], y == V[b]), w, z3.RealVal(0)) for x, y, w in out) == (2 if a == b else -1))
    return H("laplacian2_fixed_point matrix", [f"{GEO}:laplacian2_fixed_point"], run)


def harnesses():
    return [smooth(False), smooth(True), induction(), entries(0), closest(), direct(), stencil()]
