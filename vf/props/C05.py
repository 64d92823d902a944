"""C05 edges, facets, boundary edges/facets/vertices"""
import itertools

from ..hlp import *
from ..run import H
from ..logic import Unsupported
from .. import cxx, symnp

ASSUMPTIONS = ["boundary queries assume that the vertices of an element are distinct",
               "numpy.unique, sort and fancy indexing are used through their documented contracts"]


def tet(c, dim, distinct=True):
    nt = iv(c, "nt", 0)
    nv = iv(c, "nv", 0)
    t = arr(c, "T", (nt, dim + 1), "i")
    c.assume_all([nt, dim + 1], lambda e, k: z3.And(ex(t.at(e, k)) >= 0, ex(t.at(e, k)) < ex(nv)))
    if distinct:
        c.assume_all([nt], lambda e: z3.Distinct(*[ex(t.at(e, k)) for k in range(dim + 1)]))
    return t, nt, nv


def same(xs, ys):
    """equal as sets of the same small size (no repeated entries assumed)"""
    return z3.Or(*[z3.And(*[a == b for a, b in zip(xs, p)]) for p in itertools.permutations(ys)])


def row(a, i):
    return [ex(a.at(i, k)) for k in range(a.shape[1])]


def vert(t, e, ks):
    return [ex(t.at(e, k)) for k in ks]


def layout(c, X, r, t, nt, size, i, what):
    """some enumeration of the rows lists every vertex subset of every element exactly once"""
    dim = t.shape[1] - 1
    subsets = list(itertools.combinations(range(dim + 1), size))
    m = len(subsets)
    X.oblige(c, f"as many rows as {what} of all elements", shape_is(r, m * nt, size))
    want = [vert(t, i, s) for s in subsets]
    best = None
    for at in (lambda j: i * m + j, lambda j: j * nt + i, lambda j: i + j * nt):
        rows = [row(r, at(j)) for j in range(m)]
        used, pick = set(), []
        for w in want:
            q = next((j for j in range(m) if j not in used and c.implied(same(rows[j], w))), None)
            if q is None:
                break
            used.add(q)
            pick.append(q)
        if best is None:
            best = (rows, list(range(m)))
        if len(pick) == m:
            best = (rows, pick)
            break
    rows, pick = best
    for w, q, s in zip(want, pick, subsets):
        X.oblige(c, f"vertices {s} of an element have a row of their own", same(rows[q], w))


def listing(c, name, t, nt, size):
    """contract of get_edges / get_facets (shown by the harnesses of these functions): the rows are, in some order,
    the vertex subsets of the elements, each exactly once"""
    subsets = list(itertools.combinations(range(t.shape[1]), size))
    m = len(subsets)
    n = symnp.norm_dim(m * nt)
    E = arr(c, name, (n, size), "i")
    el, po, at = c.fresh_fn("el", I, I), c.fresh_fn("po", I, I), c.fresh_fn("rowof", I, I, I)
    made = set()

    def rows(r):
        if r.e.get_id() in made:
            return z3.BoolVal(True)
        e = el(r.e)
        c.note(nt, e)
        return z3.And(e >= 0, e < ex(nt), at(e, po(r.e)) == r.e,
                      z3.Or(*[z3.And(po(r.e) == j, same(row(E, r), vert(t, S(e), s))) for j, s in enumerate(subsets)]))
    c.assume_all([n], rows)
    E.rowof = lambda e, j: S(at(ex(e), z3.IntVal(j)))
    E.subsets = subsets

    def place(e, j):
        """the row of subset j of element e"""
        r = at(ex(e), z3.IntVal(j))
        c.note(n, r)
        c.assume(z3.And(r >= 0, r < ex(n), el(r) == ex(e), po(r) == j))
        return S(r)
    E.place = place
    return E


def edges(dim):
    def run(c, X):
        w = world()
        t, nt, nv = tet(c, dim, False)
        v0 = t.buf.version
        r = w.fn(GEO, "get_edges")(t, dim=dim)
        i = idx(c, nt)
        X.reached(c, "edges")
        layout(c, X, r, t, nt, 2, i, "edges")
        unmodified(X, c, "the mesh", (t, v0))
    return H(f"get_edges dim={dim}", [f"{GEO}:get_edges"], run)


def facets():
    def run(c, X):
        w = world()
        t, nt, nv = tet(c, 3, False)
        v0 = t.buf.version
        r = w.fn(GEO, "get_facets")(t)
        i = idx(c, nt)
        X.reached(c, "facets")
        layout(c, X, r, t, nt, 3, i, "facets")
        unmodified(X, c, "the mesh", (t, v0))
    return H("get_facets", [f"{GEO}:get_facets"], run)


def contains(t, e, vs):
    vv = vert(t, e, range(t.shape[1]))
    return z3.And(*[z3.Or(*[v == x for v in vv]) for x in vs])


def boundary(dim):
    name = "get_boundary_edges" if dim == 2 else "get_boundary_facets"
    what = "edge" if dim == 2 else "facet"

    callee = "get_edges" if dim == 2 else "get_facets"

    def call(c):
        t, nt, nv = tet(c, dim)
        box = []

        def stub(entities, dim=2):
            if entities is not t:
                raise Unsupported("queried for another mesh")
            box.append(listing(c, "E", t, nt, 2 if callee == "get_edges" else 3))
            return box[0]
        w = world(stubs={f"{GEO}:{callee}": stub})
        v0 = t.buf.version
        r = w.fn(GEO, name)(t)
        if not box:
            raise Unsupported(f"{name} does not call {callee}")
        return t, nt, r, v0, box[0]

    def sound(c, X):
        t, nt, r, v0, E = call(c)
        m = r.shape[0]
        X.oblige(c, f"{dim} vertices per {what}", r.ndim == 2 and shape_is(r, m, dim))
        k = idx(c, m, "k")
        X.reached(c, "boundary row")
        vs = row(r, k)
        X.oblige(c, f"{what} of an element", Ex([nt], lambda e: contains(t, e, vs)))
        e1, e2 = idx(c, nt, "e"), idx(c, nt, "e")
        for q in range(len(E.subsets)):
            E.place(e1, q)
            E.place(e2, q)
        X.cut(c, "its vertices are distinct", z3.Distinct(*vs))
        whole = [z3.Distinct(*vert(t, e, range(dim + 1))) for e in (e1, e2)]
        for e, w in zip((e1, e2), whole):
            X.derive(c, "it is one of the vertex subsets of an element containing its vertices",
                     z3.Implies(contains(t, e, vs), z3.Or(*[same(vs, vert(t, e, q)) for q in E.subsets])),
                     [z3.Distinct(*vs), w], gen=vs + vert(t, e, range(dim + 1)))
        for q in E.subsets:
            for p in E.subsets:
                X.oblige(c, f"of one element only, as {q} and {p}",
                         z3.Implies(z3.And(same(vs, vert(t, e1, q)), same(vs, vert(t, e2, p))), e1.e == e2.e))
        unmodified(X, c, "the mesh", (t, v0))

    def once(c, X):
        t, nt, r, v0, E = call(c)
        m = r.shape[0]
        k, q = idx(c, m, "k"), idx(c, m, "k")
        X.oblige(c, f"no {what} is listed twice", z3.Implies(same(row(r, k), row(r, q)), k.e == q.e))

    def complete(s):
        def run(c, X):
            t, nt, r, v0, E = call(c)
            e = idx(c, nt, "e")
            vs = vert(t, e, s)
            c.assume_all([nt], lambda q: z3.Implies(contains(t, q, vs), ex(q) == e.e))
            X.reached(c, f"boundary {what}")
            m = r.shape[0]
            E.place(e, E.subsets.index(s))
            X.oblige(c, f"the {what} {s} of an element used by no other element is listed",
                     Ex([m], lambda k: same(row(r, k), vs)), rounds=4)
        return H(f"{name} completeness {s}", [f"{GEO}:{name}"], run)
    fs = [f"{GEO}:{name}", f"{GEO}:unique_row_view"]
    return [H(f"{name} soundness", fs, sound), H(f"{name} once", fs, once)] + [
        complete(s) for s in itertools.combinations(range(dim + 1), dim)]


def boundary_vertices(dim):
    """against the contracts of get_boundary_edges / get_boundary_facets"""
    name = "get_boundary_edges" if dim == 2 else "get_boundary_facets"

    def run(c, X):
        t, nt, nv = tet(c, dim)
        m = iv(c, "m", 0)
        b = arr(c, "Bnd", (m, dim), "i")
        asked = []

        def stub(entities, dim=dim):
            asked.append((entities, dim))
            return b
        w = world(stubs={f"{GEO}:{name}": stub})
        v0, v1 = t.buf.version, b.buf.version
        r = w.fn(GEO, "get_boundary_vertices")(t, dim=dim)
        X.oblige(c, "boundary of this mesh", len(asked) == 1 and asked[0][0] is t and asked[0][1] == dim)
        n = r.shape[0]
        X.oblige(c, "a flat list", r.ndim == 1)
        k, q = idx(c, n, "k"), idx(c, n, "k")
        X.reached(c, "boundary vertex")
        X.oblige(c, "each vertex once", z3.Implies(ex(r[k]) == ex(r[q]), k.e == q.e))
        X.oblige(c, "a vertex of a boundary entity", Ex([m], lambda i: z3.Or(*[ex(b.at(i, j)) == ex(r[k]) for j in range(dim)])))
        i = idx(c, m)
        for j in range(dim):
            c.note(m * dim, (i * dim + j).e)
        for j in range(dim):
            X.oblige(c, f"vertex {j} of every boundary entity is listed",
                     Ex([n], lambda p: ex(r[p]) == ex(b.at(i, j))))
        unmodified(X, c, "the mesh", (t, v0))
    return H(f"get_boundary_vertices dim={dim}", [f"{GEO}:get_boundary_vertices"], run)


FG = "geometry/cpp/fast_geometry.cpp"


def unique_edges():
    """the compiled filter: every undirected edge exactly once"""
    def run(c, X):
        n = iv(c, "n", 0)
        E = arr(c, "E", (n, 2), "i")
        v0 = E.buf.version
        u = cxx.Unit(FG)
        r = u.fn("unique_edges")(E)
        X.oblige(c, "pairs", r.ndim == 2 and symnp.is_num(r.shape[1]) and r.shape[1] == 2)
        m = r.shape[0]
        k, q, i = idx(c, m, "k"), idx(c, m, "q"), idx(c, n, "i")
        X.reached(c, "edge")
        a, b = [ex(r.at(k, j)) for j in range(2)]
        X.oblige(c, "every row is an edge of the list",
                 Ex([n], lambda e: z3.Or(z3.And(ex(E.at(e, 0)) == a, ex(E.at(e, 1)) == b),
                                         z3.And(ex(E.at(e, 0)) == b, ex(E.at(e, 1)) == a))), rounds=4)
        X.oblige(c, "smaller vertex first", a <= b)
        f, g = [ex(r.at(q, j)) for j in range(2)]
        X.oblige(c, "no edge is listed twice", Imp(And(a == f, b == g), k.e == q.e), rounds=4)
        x, y = ex(E.at(i, 0)), ex(E.at(i, 1))
        lo, hi = z3.If(x <= y, x, y), z3.If(x <= y, y, x)
        X.oblige(c, "every edge of the list is there",
                 Ex([m], lambda p: z3.And(ex(r.at(p, 0)) == lo, ex(r.at(p, 1)) == hi)), rounds=4)
        unmodified(X, c, "the list", (E, v0))
    return H("cxx:unique_edges", ["fast_geometry.cpp:unique_edges", "fast_geometry.cpp:vectorSortIntArr"], run)


def harnesses():
    return ([edges(2), edges(3), facets()] + boundary(2) + boundary(3)
            + [boundary_vertices(2), boundary_vertices(3), unique_edges()])
