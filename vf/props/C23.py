"""C23 removal of poor, external and overlapping elements"""
from ..hlp import *
from ..run import H
from ..loops import Inv
from .. import symnp, shims, cxx
from ..logic import Unsupported
from .C05 import tet, contains

ASSUMPTIONS = ["elements of a mesh are pairwise different as rows (multiplicity part)"]
FG = "geometry/cpp/fast_geometry.cpp"


def kernel(dim):
    fn = f"remove_external_entities{dim}"

    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        lo, hi = [rv(c, f"lo{d}") for d in range(dim)], [rv(c, f"hi{d}") for d in range(dim)]
        u = cxx.Unit(FG)
        v0, v1 = p.buf.version, t.buf.version
        r = u.fn(fn)(p, t, *[x for d in range(dim) for x in (lo[d], hi[d])])
        X.oblige(c, "one value per element and vertex", shape_is(r, (dim + 1) * nt))
        e = idx(c, nt, "e")
        for k in range(dim + 1):
            g = (dim + 1) * e + k
            c.note((dim + 1) * nt, ex(g))
            x = [p.at(t.at(e, k), d) for d in range(dim)]
            out = z3.Or(*[z3.Or(ex(x[d]) < lo[d].e, ex(x[d]) > hi[d].e) for d in range(dim)])
            X.oblige(c, f"positive exactly when vertex {k} lies outside the extents", Iff(ex(r[g]) > 0, out), rounds=3)
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H("cxx:" + fn, [f"fast_geometry.cpp:{fn}", f"fast_geometry.cpp:c_{fn}"], run)


def row(t, i):
    return [ex(t.at(i, k)) for k in range(t.shape[1])]


def same(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


def exactly(c, X, r, t, nt, kept, what):
    """the table r consists of the rows of t for which kept, each once, in any order"""
    k1 = t.shape[1]
    c.assume_all([nt, nt], lambda i, j: z3.Implies(same(row(t, i), row(t, j)), ex(i) == ex(j)),
                 skip=lambda i, j: i.get_id() >= j.get_id())
    n = r.shape[0]
    X.oblige(c, "the element table keeps its form", shape_is(r, n, k1))
    m, q, e = idx(c, n, "m"), idx(c, n, "m"), idx(c, nt, "e")
    X.reached(c, "kept element")
    X.oblige(c, what + ": only kept elements", Ex([nt], lambda i: And(kept(i), same(row(r, m), row(t, i)))), rounds=5)
    X.oblige(c, what + ": every kept element", Imp(kept(e), Ex([n], lambda j: same(row(r, j), row(t, e)))), rounds=3)
    X.oblige(c, what + ": each once", z3.Implies(same(row(r, m), row(r, q)), m.e == q.e), rounds=3)


def external(dim):
    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        E = arr(c, "ext", (2 * dim,))
        N = symnp.norm_dim((dim + 1) * nt)
        SD = arr(c, "SD", (N,))
        out = c.fresh_fn("outside", I, B)
        lo, hi = [ex(E.at(d)) for d in range(dim)], [ex(E.at(d + dim)) for d in range(dim)]
        # contract of the kernel
        c.assume_all([nt], lambda e: z3.And(*[(c.note(N, ex((dim + 1) * e + k)),
                                               (ex(SD.at((dim + 1) * e + k)) > 0) == out(ex(t.at(e, k))))[1]
                                              for k in range(dim + 1)]))
        used = []

        def kern(points, cells, *b):
            used.append(1)
            X.oblige(c, "the kernel sees this mesh", And(points is p, cells is t, len(b) == 2 * dim))
            X.oblige(c, "the kernel sees the extents",
                     And(*[z3.And(ex(logic.real(b[2 * d])) == lo[d], ex(logic.real(b[2 * d + 1])) == hi[d])
                           for d in range(dim)]))
            return SD
        w = world(_fast_geometry=shims.fast_geometry(**{f"remove_external_entities{dim}": kern}))
        v0, v1 = p.buf.version, t.buf.version
        V, T, jx = w.fn(GEO, "remove_external_entities")(p, t, E, dim=dim)
        if not used:
            raise Unsupported("another kernel")
        X.oblige(c, "vertices are returned as they are", V is p)
        X.oblige(c, "vertex map length", shape_is(jx, nv))
        X.oblige(c, "vertex map is the identity", All([nv], lambda i: ex(jx[i]) == ex(i)))
        exactly(c, X, T, t, nt, lambda i: z3.Not(z3.And(*[out(x) for x in row(t, i)])), "removal")
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"remove_external_entities dim={dim}", [f"{GEO}:remove_external_entities"], run)


class Pair(tuple):
    def __getitem__(self, k):
        if isinstance(k, S):
            return symnp.select([lambda v=v: v for v in self], k)
        return tuple.__getitem__(self, k)


def cleaner(c, X, p, box):
    """stand-in for fix_mesh (C07): records the mesh it is given"""
    P2, T2, n2, m2 = mesh(c, p.shape[1], "2", nt_min=1)
    J2 = arr(c, "J2", (n2,), "i")

    def fix(p, t, ptol=2e-13, dim=2, delete_unused=False, fix_orientation=True):
        box.append(dict(p=p, t=t, dim=dim, delete_unused=delete_unused, fix_orientation=fix_orientation, ptol=ptol))
        return P2, T2, J2
    return fix, P2, T2


def clean(dim, verbose):
    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        nb = iv(c, "nb", 0)
        Q, bele, thr = arr(c, "Q", (nt,)), arr(c, "bele", (nb,), "i"), rv(c, "minqual")
        c.assume_all([nb], lambda b: z3.And(ex(bele.at(b)) >= 0, ex(bele.at(b)) < ex(nt)))
        seen, box = [], []

        def sq(p_, t_):
            seen.append(p_ is p and t_ is t)
            return Q

        def sb(vertices, entities, dim=2):
            seen.append(vertices is p and entities is t and dim == p.shape[1])
            return bele
        fix, P2, T2 = cleaner(c, X, p, box)
        w = world(stubs={f"{GEO}:simp_qual": sq, f"{GEO}:get_boundary_entities": sb, f"{GEO}:fix_mesh": fix})
        v0, v1 = p.buf.version, t.buf.version
        kw = {"dim": dim} if dim == 3 else {}
        V, T = w.fn(GEO, "delete_boundary_entities")(p, t, min_qual=thr, verbose=verbose, **kw)
        if len(box) != 1 or len(seen) != 2:
            raise Unsupported("other callees")
        X.oblige(c, "quality and boundary of this mesh", all(seen))
        X.oblige(c, "the cleaned mesh is returned", V is P2 and T is T2)
        X.oblige(c, "the vertices are handed on", box[0]["p"] is p)
        X.oblige(c, "unused vertices are dropped, orientation is repaired, default tolerance",
                 box[0]["delete_unused"] is True and box[0]["fix_orientation"] is True and box[0]["ptol"] == 2e-13)

        def kept(i):
            c.note(nt, ex(i))
            return Not(And(ex(Q.at(i)) < thr.e, Ex([nb], lambda b: ex(bele.at(b)) == ex(i))))
        exactly(c, X, box[0]["t"], t, nt, kept, "clean-up")
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"delete_boundary_entities dim={dim} verbose={verbose}", [f"{GEO}:delete_boundary_entities"], run)


def lint(dim):
    """linter against the contracts of its callees"""
    def run(c, X):
        X.rounds = 3
        p, t, nv, nt = mesh(c, dim)
        Q, thr = arr(c, "Q", (nt,)), rv(c, "minqual")
        ns = iv(c, "ns", 0)
        A, Bb = arr(c, "pairA", (ns,), "i"), arr(c, "pairB", (ns,), "i")
        c.assume_all([ns], lambda s: z3.And(*[z3.And(ex(a.at(s)) >= 0, ex(a.at(s)) < ex(nt)) for a in (A, Bb)]))
        seen, box = [], []
        quals = [Q, arr(c, "Q3", (iv(c, "nq3", 1),))]

        def sq(p_, t_):
            seen.append((p_, t_))
            return quals[min(len(seen), 2) - 1]

        def ov(vertices, entities, dim=2):
            seen.append((vertices, entities))
            box.append(dim)
            return symnp.SymList(ns, lambda s: Pair((A.at(s), Bb.at(s))))
        calls = []
        fix, P2, T2 = cleaner(c, X, p, calls)
        P3, T3, n3, m3 = mesh(c, dim, "3", nt_min=1)
        dele = []

        def db(vertices, entities, dim=2, min_qual=0.10, verbose=1):
            dele.append((vertices, entities, dim, min_qual))
            return P3, T3

        def low(x, s):
            """x is the poorer element of the pair"""
            a, b = ex(A.at(s)), ex(Bb.at(s))
            qa, qb = ex(Q.at(S(a))), ex(Q.at(S(b)))
            return z3.Or(z3.And(x == a, qa <= qb), z3.And(x == b, qb <= qa))

        def poorer(c, env, j):
            d = env["delete"]
            n = d.shape[0]
            if symnp.is_num(n) and n == 0:
                sound = z3.BoolVal(True)
            else:
                sound = All([n], lambda m: Ex([ns], lambda s: z3.And(ex(s) < ex(j), low(ex(d.at(m)), s))))
            for k in (0, 1):
                c.note(ns, z3.simplify(ex(j) - k))
            return [("only poorer elements of reported pairs are marked", sound),
                    ("of every pair so far the poorer one is marked",
                     All([ns], lambda s: Imp(ex(s) < ex(j), Or(
                         And(member(c, d, A.at(s)), low(ex(A.at(s)), s)),
                         And(member(c, d, Bb.at(s)), low(ex(Bb.at(s)), s))))))]
        inv = [Inv("over the reported pairs", lambda i, e: i[1] == "linter" and i[2] == 0,
                   lambda c, e, i: {"delete": bag(c, "delete")}, poorer)]
        w = world(stubs={f"{GEO}:simp_qual": sq, f"{GEO}:do_any_overlap": ov, f"{GEO}:fix_mesh": fix,
                         f"{GEO}:delete_boundary_entities": db, f"{GEO}:is_manifold": lambda *a, **k: True}, loops=inv)
        v0, v1 = p.buf.version, t.buf.version
        V, T = w.fn(GEO, "linter")(p, t, dim=dim, min_qual=thr)
        if len(calls) != 1 or not box:
            raise Unsupported("other callees")
        X.oblige(c, "overlaps and qualities of this mesh", all(a is p and b is t for a, b in seen[:2]) and box == [dim])
        X.oblige(c, "the vertices are handed on", calls[0]["p"] is p)
        if dim == 2:
            X.oblige(c, "the cleaned mesh goes through the boundary clean-up",
                     len(dele) == 1 and dele[0][0] is P2 and dele[0][1] is T2 and dele[0][2] == 2 and dele[0][3] is thr)
        X.oblige(c, "the result is returned", (V is P3 and T is T3) if dim == 2 else (V is P2 and T is T2))

        r = calls[0]["t"]
        n = r.shape[0]
        c.assume_all([nt, nt], lambda i, j: z3.Implies(same(row(t, i), row(t, j)), ex(i) == ex(j)),
                     skip=lambda i, j: i.get_id() >= j.get_id())
        m, q, e, s = idx(c, n, "m"), idx(c, n, "m"), idx(c, nt, "e"), idx(c, ns, "s")
        X.reached(c, "kept element")
        X.oblige(c, "linting: only elements of the mesh", Ex([nt], lambda i: same(row(r, m), row(t, i))), rounds=3)
        X.oblige(c, "linting: an element that is not the poorer one of a pair stays",
                 Or(Ex([ns], lambda s: low(e.e, s)), Ex([n], lambda j: same(row(r, j), row(t, e)))), rounds=3)
        a, b = A.at(s), Bb.at(s)
        c.note(nt, ex(a))
        c.note(nt, ex(b))
        c.assume(ex(Q.at(a)) != ex(Q.at(b)))
        x = S(z3.If(ex(Q.at(a)) < ex(Q.at(b)), ex(a), ex(b)))
        c.note(nt, x.e)
        X.oblige(c, "linting: the poorer element of every pair goes",
                 Not(Ex([n], lambda j: same(row(r, j), row(t, x)))), rounds=3)
        X.oblige(c, "linting: each once", z3.Implies(same(row(r, m), row(r, q)), m.e == q.e), rounds=3)
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"linter dim={dim}", [f"{GEO}:linter"], run)


def harnesses():
    return ([kernel(d) for d in (2, 3)] + [external(d) for d in (2, 3)]
            + [clean(2, 0), clean(2, 1), clean(3, 0)] + [lint(2), lint(3)])
