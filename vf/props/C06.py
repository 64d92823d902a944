"""C06 vertex-to-element table, boundary elements"""
from ..hlp import *
from ..run import H
from ..loops import Inv
from .. import symnp
from .C05 import tet, vert, contains

ASSUMPTIONS = ["the vertices of an element are distinct (once-each part)",
               "numpy argsort/searchsorted/unique through their documented contracts"]


def table(dim):
    def call(c):
        w = world()
        t, nt, nv = tet(c, dim)
        p = arr(c, "P", (nv, dim))
        v0, v1 = p.buf.version, t.buf.version
        vtoe, ptr = w.fn(GEO, "vertex_to_entities")(p, t, dim=dim)
        return t, nt, nv, p, vtoe, ptr, v0, v1

    def slices(c, X):
        t, nt, nv, p, vtoe, ptr, v0, v1 = call(c)
        N = (dim + 1) * nt
        X.oblige(c, "one pointer per vertex and an end", shape_is(ptr, nv + 1))
        X.oblige(c, "one entry per incidence", shape_is(vtoe, N))
        v = idx(c, nv, "v")
        a, b = ex(ptr[v]), ex(ptr[v + 1])
        X.reached(c, "pointers")
        X.oblige(c, "slices lie in the table", And(a >= 0, a <= b, b <= ex(N)), rounds=3)
        q, r = idx(c, N, "q"), idx(c, N, "q")
        c.assume(And(q.e >= a, q.e < b, r.e >= a, r.e < b))
        X.reached(c, "slice entry")
        e, f = vtoe[q], vtoe[r]
        X.oblige(c, "entries are elements", And(ex(e) >= 0, ex(e) < ex(nt)))
        X.oblige(c, "elements in the slice contain the vertex", contains(t, e, [v.e]))
        X.oblige(c, "each element once per vertex", z3.Implies(ex(e) == ex(f), q.e == r.e), rounds=3)
        unmodified(X, c, "the mesh", (p, v0), (t, v1))

    def complete(c, X):
        t, nt, nv, p, vtoe, ptr, v0, v1 = call(c)
        N = (dim + 1) * nt
        e = idx(c, nt, "e")
        for k in range(dim + 1):
            c.note(N, ((dim + 1) * e + k).e)
        X.reached(c, "element")
        for k in range(dim + 1):
            v = t.at(e, k)
            a, b = ex(ptr[v]), ex(ptr[v + 1])
            X.oblige(c, f"an element is in the slice of its vertex {k}",
                     Ex([N], lambda q: z3.And(ex(q) >= a, ex(q) < b, ex(vtoe[q]) == e.e)), rounds=3)
    f = [f"{GEO}:vertex_to_entities"]
    return [H(f"vertex_to_entities dim={dim} slices", f, slices),
            H(f"vertex_to_entities dim={dim} completeness", f, complete)]


def adjacency(c, t, nt, nv):
    """contract of vertex_to_entities"""
    dim = t.shape[1] - 1
    N = symnp.norm_dim((dim + 1) * nt)
    vtoe, ptr = arr(c, "vtoe", (N,), "i"), arr(c, "ptr", (nv + 1,), "i")
    c.assume_all([nv], lambda v: z3.And(ex(ptr.at(v)) >= 0, ex(ptr.at(v)) <= ex(ptr.at(v + 1)),
                                        ex(ptr.at(v + 1)) <= ex(N)))
    c.assume_all([N], lambda q: z3.And(ex(vtoe.at(q)) >= 0, ex(vtoe.at(q)) < ex(nt)))
    c.assume_all([nv, N], lambda v, q: z3.Implies(
        z3.And(ex(q) >= ex(ptr.at(v)), ex(q) < ex(ptr.at(v + 1))), contains(t, vtoe.at(q), [ex(v)])))
    pos = c.fresh_fn("pos", I, I, I)

    def place(e, k):
        v = t.at(e, k)
        q = pos(ex(e), z3.IntVal(k))
        c.note(N, q)
        c.note(nv, ex(v))
        c.assume(z3.And(q >= 0, q < ex(N), q >= ex(ptr.at(v)), q < ex(ptr.at(v + 1)), ex(vtoe.at(S(q))) == ex(e)))
        return S(q)
    return vtoe, ptr, place, N


def entities(dim):
    """get_boundary_entities against the contracts of get_boundary_vertices and vertex_to_entities"""
    def run(c, X):
        X.rounds = 3
        t, nt, nv = tet(c, dim)
        p = arr(c, "P", (nv, dim))
        nb = iv(c, "nb", 0)
        bv = arr(c, "BV", (nb,), "i")
        c.assume_all([nb], lambda b: (c.note(nv, ex(bv.at(b))), z3.And(ex(bv.at(b)) >= 0, ex(bv.at(b)) < ex(nv)))[1])
        vtoe, ptr, place, N = adjacency(c, t, nt, nv)
        w_b, w_a = [], []

        def sb(entities, dim=2):
            w_b.append((entities, dim))
            return bv

        def sa(vertices, entities, dim=2):
            w_a.append((vertices, entities, dim))
            return vtoe, ptr

        def sl(b, q):
            v = bv.at(b)
            return z3.And(ex(q) >= ex(ptr.at(v)), ex(q) < ex(ptr.at(v + 1)))

        def fresh(c):
            n = iv(c, "nbe", 0)
            return arr(c, "bele", (n,), "i")

        def sound(be):
            n = be.shape[0]
            if symnp.is_num(n) and n == 0:
                return z3.BoolVal(True)
            return All([n], lambda k: And(ex(be.at(k)) >= 0, ex(be.at(k)) < ex(nt),
                                          Ex([nb], lambda b: contains(t, be.at(k), [ex(bv.at(b))]))))

        def listed(be, x):
            n = be.shape[0]
            if symnp.is_num(n) and n == 0:
                return z3.BoolVal(False)
            return Ex([n], lambda k: ex(be.at(k)) == x)

        def outer(c, env, i):
            be = env["bele"]
            return [("boundary elements only", sound(be)),
                    ("elements of earlier boundary vertices are listed",
                     All([nb, N], lambda b, q: Imp(z3.And(ex(b) < ex(i), sl(b, q)), listed(be, ex(vtoe.at(q))))))]
        start = []

        def inner(c, env, j):
            be = env["bele"]
            if symnp.is_num(j) and j == 0:
                start[:] = [be]
            b0 = start[0]
            v = env["vertex"]
            c.note(N, z3.simplify(ex(ptr.at(v)) + ex(j)))
            c.note(N, z3.simplify(ex(ptr.at(v)) + ex(j) - 1))
            n0, n1 = b0.shape[0], be.shape[0]
            return [("boundary elements only", sound(be)),
                    ("earlier entries stay", And(ex(n1) >= ex(n0), All([n0], lambda k: z3.And(
                        ex(be.at(k)) == ex(b0.at(k)), note(n1, k))) if not (symnp.is_num(n0)) else True)),
                    ("elements of this vertex so far are listed",
                     All([N], lambda q: Imp(z3.And(ex(q) >= ex(ptr.at(v)), ex(q) < ex(ptr.at(v)) + ex(j)),
                                            listed(be, ex(vtoe.at(q))))))]

        def note(n, k):
            c.note(n, ex(k))
            return z3.BoolVal(True)
        inv = [Inv("over boundary vertices", lambda i, e: i[1] == "get_boundary_entities" and i[2] == 0,
                   lambda c, e, i: {"bele": fresh(c)}, outer),
               Inv("over the elements of a vertex", lambda i, e: i[1] == "get_boundary_entities" and i[2] == 1,
                   lambda c, e, i: {"bele": fresh(c)}, inner)]
        w = world(stubs={f"{GEO}:get_boundary_vertices": sb, f"{GEO}:vertex_to_entities": sa}, loops=inv)
        v0, v1 = p.buf.version, t.buf.version
        r = w.fn(GEO, "get_boundary_entities")(p, t, dim=dim)
        X.oblige(c, "tables of this mesh", w_b == [(t, dim)] and w_a == [(p, t, dim)])
        n = r.shape[0]
        k, q = idx(c, n, "k"), idx(c, n, "k")
        X.oblige(c, "each element once", z3.Implies(ex(r[k]) == ex(r[q]), k.e == q.e), rounds=3)
        X.oblige(c, "only elements with a boundary vertex", Ex([nb], lambda b: contains(t, r[k], [ex(bv.at(b))])),
                 rounds=3)
        e, b = idx(c, nt, "e"), idx(c, nb, "b")
        for j in range(dim + 1):
            place(e, j)
            X.oblige(c, f"an element whose vertex {j} is on the boundary is listed",
                     Imp(ex(t.at(e, j)) == ex(bv.at(b)), Ex([n], lambda m: ex(r[m]) == e.e)), rounds=4)
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"get_boundary_entities dim={dim}", [f"{GEO}:get_boundary_entities"], run)


def harnesses():
    return table(2) + table(3) + [entities(2), entities(3)]
