"""C10 point location and overlap detection"""
from ..hlp import *
from ..run import H
from ..loops import Inv
from .. import symnp, shims
from ..logic import Unsupported
from .C05 import tet, contains
from .C06 import adjacency

ASSUMPTIONS = ["points are given through their barycentric coordinates (every point has them when the element is not flat)",
               "the element is not flat (its determinant is not zero)",
               "gutils.calc_4x4determinant is the determinant (C08 shows it on the C++ source)"]


def combo(l, q):
    r = None
    for a, x in zip(l, q):
        r = a * x if r is None else r + a * x
    return r


def locate2():
    def run(c, X):
        c.canon = "poly"
        w = world()
        x, y = [rv(c, f"x{k}") for k in range(3)], [rv(c, f"y{k}") for k in range(3)]
        l = [rv(c, "l0"), rv(c, "l1")]
        l.append(1 - l[0] - l[1])
        D = ex((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]))
        c.assume(D != 0)
        r = w.fn(GEO, "vertex_in_entity2")((combo(l, x), combo(l, y)), tuple(v for k in range(3) for v in (x[k], y[k])))
        X.reached(c, "answer")
        inside = z3.And(*[z3.And(ex(a) >= 0, ex(a) <= 1) for a in l])
        X.oblige(c, "inside exactly when all barycentric coordinates lie in [0,1]", Iff(logic.boolx(r), inside))
    return H("vertex_in_entity2", [f"{GEO}:vertex_in_entity2"], run)


def locate3():
    def run(c, X):
        q = [[rv(c, f"q{k}{d}") for d in range(3)] for k in range(4)]
        l = [rv(c, f"l{k}") for k in range(3)]
        l.append(1 - l[0] - l[1] - l[2])
        v = [combo(l, [q[k][d] for k in range(4)]) for d in range(3)]
        D = S(c.fresh("D", R))
        c.assume(D.e != 0)

        def det4(a):
            m = shims.calc_4x4determinant(a)[0]
            # D abbreviates the determinant of the element: rows replaced by the point scale it
            full = shims.det_rows([[*q[k], 1] for k in range(4)])
            for k in [None] + list(range(4)):
                t = full if k is None else full * l[k]
                for s in (1, -1):
                    if logic.Ring(c).is_zero(ex(m) - s * ex(t)):
                        return s * D if k is None else s * D * l[k]
            raise Unsupported("another determinant")
        fg = shims.fast_geometry(calc_4x4determinant=det4)
        w = world(_fast_geometry=fg)
        r = w.fn(GEO, "vertex_in_entity3")(tuple(v), tuple(z for row in q for z in row))
        X.reached(c, "answer")
        inside = z3.And(*[ex(a) > 0 for a in l])
        X.oblige(c, "inside exactly when all barycentric coordinates are positive", Iff(logic.boolx(r), inside))
    return H("vertex_in_entity3", [f"{GEO}:vertex_in_entity3"], run)


def overlap(dim):
    def run(c, X):
        X.rounds = 3
        t, nt, nv = tet(c, dim)
        p = arr(c, "P", (nv, dim))
        vtoe, ptr, place, N = adjacency(c, t, nt, nv)
        C = arr(c, "C", (nt, dim))
        def sl(v, q):
            c.note(nv, ex(v))
            return z3.And(ex(q) >= ex(ptr.at(v)), ex(q) < ex(ptr.at(v + 1)))
        hits, shares = c.fresh_fn("hit", I, I, B), c.fresh_fn("share", I, I, B)
        # shares(a, b) abbreviates: a and b have a common vertex; by the table's contract
        c.assume_all([nt, N], lambda e, q: z3.And(*[
            z3.Implies(sl(t.at(e, k), q), shares(ex(e), ex(vtoe.at(q)))) for k in range(dim + 1)]))
        now = []
        tables = []

        def sa(vertices, entities, dim=2):
            tables.append(vertices is p and entities is t and dim == t.shape[1] - 1)
            return vtoe, ptr

        def sc(vertices, entities, dim=2):
            tables.append(vertices is p and entities is t and dim == t.shape[1] - 1)
            return C

        def locate(vertex, entity):
            """contract of the point location, at its call: centroid of the first, vertices of the second"""
            ie, ele = now
            vertex, entity = list(vertex), list(entity)
            cols = [C.at(ie, d) for d in range(dim)] + [p.at(t.at(ele, k), d) for k in range(dim + 1) for d in range(dim)]
            if len(vertex) + len(entity) != len(cols):
                raise Unsupported("another call of the point location")
            X.oblige(c, "the centroid of the element is located in its neighbour",
                     And(*[logic.num(u) == logic.num(v) for u, v in zip(vertex + entity, cols)]))
            return S(hits(ex(ie), ex(ele)))

        def hit(a, b):
            """centroid of a inside b"""
            return hits(ex(a), ex(b))

        def share(a, b):
            return shares(ex(a), ex(b))

        def good(a, b):
            return And(ex(a) >= 0, ex(a) < ex(nt), ex(b) >= 0, ex(b) < ex(nt), ex(a) != ex(b), share(a, b), hit(a, b))

        def sound(P):
            return All([nt, nt], lambda a, b: Imp(reported(P, a, b), good(a, b)))

        def complete(P, i):
            return [(f"overlaps of earlier elements around vertex {k} are reported",
                     All([nt, N], lambda e, q, k=k: Imp(
                         z3.And(ex(e) < ex(i), sl(t.at(e, k), q), ex(e) != ex(vtoe.at(q)), hit(e, vtoe.at(q))),
                         reported(P, e, vtoe.at(q))))) for k in range(dim + 1)]

        def outer(c, env, i):
            P = env["intersections"]
            return [("reported pairs overlap", sound(P))] + complete(P, i)
        pos = []

        def gathered(k, ie, a):
            return (f"the elements around vertex {k} are neighbours",
                    All([N], lambda q: Imp(sl(t.at(ie, k), q), member(c, a, vtoe.at(q)))))

        def sharing(ie, a):
            n1 = a.shape[0]
            el = (lambda m: And(ex(a.at(m)) >= 0, ex(a.at(m)) < ex(nt), share(ie, a.at(m))))
            return z3.BoolVal(True) if symnp.is_num(n1) and n1 == 0 else All([n1], el)

        def nei(c, env, j):
            a = env["neis"]
            if symnp.is_num(j) and j == 0:
                pos.append(len(c.facts))
            v, ie = env["vertex"], env["ie"]
            c.note(nv, ex(v))
            for k in (0, 1):
                c.note(N, z3.simplify(ex(ptr.at(v)) + ex(j) - k))
            return [("neighbours share a vertex", sharing(ie, a)),
                    *[gathered(k, ie, a) for k in range(len(pos) - 1)],
                    ("the elements of this vertex so far are neighbours",
                     All([N], lambda q: Imp(z3.And(ex(q) >= ex(ptr.at(v)), ex(q) < ex(ptr.at(v)) + ex(j)),
                                            member(c, a, vtoe.at(q)))))]

        def gather(c, env, j):
            # what was collected is summed up by the invariant: earlier stages are no longer needed
            del c.facts[pos[0]:]
            return {"intersections": Pairs(c)}

        def test(c, env, j):
            P = env["intersections"]
            a, ie = env["neis"], env["ie"]
            now[:] = [ie, a.at(j)]
            na = a.shape[0]
            for k in (0, 1):
                c.note(na, z3.simplify(ex(j) - k))
            return [("neighbours share a vertex", sharing(ie, a))] + [gathered(k, ie, a) for k in range(dim + 1)] + [
                    ("reported pairs overlap", sound(P))] + complete(P, ie) + [
                    ("overlapped neighbours so far are reported",
                     z3.BoolVal(True) if symnp.is_num(na) and na == 0 else
                     All([na], lambda m: Imp(z3.And(ex(m) < ex(j), ex(ie) != ex(a.at(m)), hit(ie, a.at(m))),
                                             reported(P, ie, a.at(m)))))]

        F = "do_any_overlap"
        inv = [Inv("over elements", lambda i, e: i[1] == F and i[2] == 0,
                   lambda c, e, i: {"intersections": Pairs(c)}, outer),
               Inv("over the elements of a vertex", lambda i, e: i[1] == F and i[2] == 2,
                   lambda c, e, i: {"neis": bag(c, "neis")}, nei),
               Inv("over the neighbours", lambda i, e: i[1] == F and i[2] == 3, gather, test)]
        w = world(stubs={f"{GEO}:vertex_to_entities": sa, f"{GEO}:get_centroids": sc,
                         f"{GEO}:vertex_in_entity{dim}": locate}, loops=inv)
        v0, v1 = p.buf.version, t.buf.version
        r = w.fn(GEO, F)(p, t, dim=dim)
        X.oblige(c, "tables of this mesh", len(tables) == 2 and all(tables))
        a, b = idx(c, nt, "a"), idx(c, nt, "b")
        X.reached(c, "pair")
        X.oblige(c, "a reported pair shares a vertex and the first centroid lies in the second",
                 Imp(reported(r, a, b), good(a, b)))
        e, f = idx(c, nt, "e"), idx(c, nt, "f")
        c.assume(e.e != f.e)
        c.assume(hit(e, f))
        for j in range(dim + 1):
            q = place(f, j)
        for i in range(dim + 1):
            for j in range(dim + 1):
                X.oblige(c, f"overlap of elements sharing vertices {i} and {j} is reported",
                         Imp(ex(t.at(e, i)) == ex(t.at(f, j)), reported(r, e, f)), rounds=4)
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"do_any_overlap dim={dim}", [f"{GEO}:do_any_overlap"], run, budget=400, hard=420)


def harnesses():
    return [locate2(), locate3(), overlap(2), overlap(3)]
