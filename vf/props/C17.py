"""C17 bar forces, fixed points"""
from ..hlp import *
from ..run import H
from .. import symnp, logic
from ..logic import Unsupported
from ..pyload import Mod, AnyMod
from . import genmesh
from .field import Field
from .C05 import tet, layout

ASSUMPTIONS = ["the sum over all bars of equal terms is the same number (sums over a symbolic number of bars are opaque)",
               "scipy's coo matrix adds the entries of equal row and column"]


class Done(Exception):
    pass


def closest(dim):
    def run(c, X):
        n = iv(c, "n", 1)
        P = arr(c, "P", (n, dim))
        x = arr(c, "x", (dim,))
        k = world().fn(GEN, "_closest_node")(x, P)
        j = idx(c, n, "j")

        def d2(i):
            return sum(ex((P.at(i, d) - x.at(d)) * (P.at(i, d) - x.at(d))) for d in range(dim))
        X.reached(c, "nearest")
        X.oblige(c, "a vertex is found", And(ex(k) >= 0, ex(k) < ex(n)))
        X.oblige(c, "no vertex is nearer", d2(S(ex(k))) <= d2(j))
    return H(f"_closest_node dim={dim}", [f"{GEN}:_closest_node"], run)


def moves(dim, **kw):
    """one meshing iteration moves the vertices by delta_t times the forces, except the fixed ones"""
    def run(c, X):
        g = genmesh.Run(c, X, dim, **kw)
        c.assume(g.h0.e > 0)
        delta = rv(c, "delta_t")
        g.kw["delta_t"] = delta

        def step(g, env):
            pr, fo = g.ev.get("project", []), g.ev.get("forces", [])
            if len(fo) != 1 or not pr:
                raise Unsupported("the step is organised differently")
            fo, q = fo[0], pr[0]["p"]
            tp = g.tp
            n = tp.shape[0]
            X.reached(c, "step")
            alike(X, c, fo["p"], tp, "the forces are those on the vertices of the triangulation")
            alike(X, c, fo["t"], g.ev["filter"][0]["out"], "the forces are those of the elements kept")
            X.oblige(c, "the minimum edge length is passed on", ex(fo["h0"]) == ex(g.h0))
            v, d = S(c.fresh("v", I)), S(c.fresh("d", I))
            c.note(n, v.e)
            ok = And(v.e >= 0, v.e < ex(n), d.e >= 0, d.e < dim)
            moved = ex(q.at(v, d)) == ex(tp.at(v, d) + delta * fo["out"].at(v, d))
            held = ex(q.at(v, d)) == ex(tp.at(v, d))
            X.oblige(c, "every vertex moves by the forces or is held", Imp(ok, Or(moved, held)))
            near = getattr(g, "near", None)
            fixed = [(a, a.shape[0]) for a in (g.pf, g.corners) if a is not None and not (symnp.is_num(a.shape[0]) and a.shape[0] == 0)]
            if not fixed:
                X.oblige(c, "without fixed points every vertex moves", Imp(ok, moved))
                return
            if near is None:
                near = c.fresh_fn("nearest", *([R] * dim), I)

            def target(a, m):
                return near(*[ex(logic.real(a.at(S(ex(m)), e))) for e in range(dim)])
            m = S(c.fresh("m", I))
            c.note(g.pf.shape[0], m.e)
            X.oblige(c, "the vertex nearest to a fixed point is held",
                     Imp(And(ok, m.e >= 0, m.e < ex(g.pf.shape[0]), v.e == target(g.pf, m)), held), rounds=4)
            X.oblige(c, "only the vertices nearest to fixed points are held",
                     Imp(ok, Or(moved, *[Ex([k], lambda i: v.e == target(a, i)) for a, k in fixed])), rounds=4)
        try:
            g.go(step)
        except (ValueError, AssertionError):
            return
    nm = " ".join(f"{k}={v}" for k, v in kw.items())
    return H(f"generate_mesh step dim={dim} {nm}", genmesh.COVERED, run)


def edge_list(dim):
    """_get_edges: the element vertex pairs go to unique_edges, whose table is returned"""
    def run(c, X):
        t, nt, nv = tet(c, dim, False)
        out = arr(c, "E", (iv(c, "ne", 0), 2), "i")
        seen = []

        def unique_edges(e):
            seen.append(symnp.asarray(e).copy())
            return out
        w = world(_fast_geometry=shims.fast_geometry(unique_edges=unique_edges))
        r = w.fn(GEN, "_get_edges")(t)
        if len(seen) != 1:
            raise Unsupported("the edges are computed differently")
        i = idx(c, nt)
        X.reached(c, "edges")
        layout(c, X, seen[0], t, nt, 2, i, "edges")
        alike(X, c, r, out, "the distinct edges are returned")
    return H(f"_get_edges dim={dim}", [f"{GEN}:_get_edges"], run)


def forces(dim, zero=False):
    def run(c, X):
        c.canon = True
        p, t, nv, nt = mesh(c, dim)
        E = arr(c, "E", (iv(c, "ne", 0), 2), "i")
        ne = E.shape[0]
        c.assume_all([ne, 2], lambda e, k: z3.And(ex(E.at(e, k)) >= 0, ex(E.at(e, k)) < ex(nv)))
        fh, h0, mult = Field(c, dim, "fh"), rv(c, "h0"), rv(c, "mult")
        seen = []
        out = arr(c, "F", (nv, dim))

        def get_edges(s):
            alike(X, c, s, t, "the edges are those of the elements")
            return E.copy()

        def dense(I_, J, V, shape=None, dtype=None):
            seen.append((symnp.asarray(I_).copy(), symnp.asarray(J).copy(), symnp.asarray(V).copy()))
            X.oblige(c, "one row per vertex and one column per direction",
                     And(ex(shape[0]) == ex(nv), ex(shape[1]) == dim))
            return out
        p0 = p.copy()
        w = world(stubs={f"{GEN}:_get_edges": get_edges, f"{GU}:dense": dense})
        r = w.fn(GEN, "_compute_forces")(p, t, fh, h0, mult)
        if len(seen) != 1:
            raise Unsupported("the forces are accumulated differently")
        I_, J, V = seen[0]
        alike(X, c, r, out, "the accumulated forces are returned")
        X.oblige(c, "the vertices are not modified", p.buf.version == 0)
        m = I_.shape[1] if I_.ndim == 2 else None
        if m is None or not symnp.is_num(m):
            raise Unsupported("the forces are accumulated differently")
        X.oblige(c, "one row of contributions per bar", And(*[shape_is(a, ne, m) for a in (I_, J, V)]))
        e = idx(c, ne, "e")
        X.reached(c, "bar")
        a, b = E.at(e, 0), E.at(e, 1)
        pa, pb = [[p0.at(x, k) for k in range(dim)] for x in (a, b)]
        v = S(c.fresh("v", I))
        bar = [x - y for x, y in zip(pa, pb)]
        if zero:
            for d in range(dim):
                c.assume(ex(bar[d]) == 0)
            for d in range(dim):
                for k in range(m):
                    X.oblige(c, f"direction {d}: a bar of length zero pushes nothing", ex(V.at(e, k)) == 0)
            return
        L2 = sum((x * x for x in bar[1:]), bar[0] * bar[0])
        L = logic.ssqrt(L2)
        mid = [(x + y) / 2 for x, y in zip(pa, pb)]
        h = S(fh.at(mid))
        sums = getattr(c, "sums", [])
        if len(sums) != 2 or not all(len(s[1]) == 1 for s in sums):
            raise Unsupported("the desired length is computed differently")
        c.assume(ex(L2) > 0)       # bars of length zero: below
        order = [0, 1]
        hp, Lp = ex(h ** dim), ex(L ** dim)
        tm = [ex(s[2](e)) for s in sums]
        if c.implied(tm[1] == Lp) and not c.implied(tm[0] == Lp):
            order = [1, 0]
        for k in order:
            X.oblige(c, "the scale sums over all bars", ex(sums[k][1][0]) == ex(ne))
        X.oblige(c, "the scale sums the lengths of the bars", tm[order[0]] == Lp)
        X.oblige(c, "the scale sums the sizes at the middle of the bars", tm[order[1]] == hp)
        K = (S(sums[order[0]][0]) / S(sums[order[1]][0])) ** (1.0 / dim)
        F = logic.smax(h * mult * K - L, 0)
        for d in range(dim):
            got = 0
            for k in range(m):
                got = got + logic.ite(S(z3.And(ex(I_.at(e, k)) == v.e, ex(J.at(e, k)) == d)), V.at(e, k), 0)
            f = F / L * bar[d]
            for what, cond, want in (("its first end", And(v.e == a.e, v.e != b.e), f),
                                     ("its second end", And(v.e == b.e, v.e != a.e), -f),
                                     ("no other vertex", And(v.e != a.e, v.e != b.e), 0.0)):
                X.oblige(c, f"direction {d}: a bar pushes {what}", Imp(cond, ex(got) == ex(want)))
    return H(f"_compute_forces dim={dim}" + (" zero length" if zero else ""), [f"{GEN}:_compute_forces"], run)


def accumulate(scalar):
    """dense hands its arguments to scipy's coo matrix entry by entry"""
    def run(c, X):
        n, m, N, dim = iv(c, "n", 0), 4, iv(c, "N", 0), 2
        I_ = arr(c, "I", (n, m), "i")
        J, V = (2, 1.5) if scalar else (arr(c, "J", (n, m), "i"), arr(c, "V", (n, m)))
        seen = []
        out = arr(c, "out", (N, dim))

        class Coo:
            def __init__(self, data, shape=None, dtype=None, **k):
                v, (i, j) = data
                seen.append((symnp.asarray(i), symnp.asarray(j), symnp.asarray(v), shape, dtype))

            def toarray(self):
                return out
            todense = toarray

        w = world(**{"scipy": AnyMod("scipy", sparse=Mod("scipy.sparse", coo_matrix=Coo))})
        r = w.fn(GU, "dense")(I_, J, V, shape=(N, dim))
        if len(seen) != 1:
            raise Unsupported("the entries are accumulated differently")
        i, j, v, shape, dt = seen[0]
        alike(X, c, r, out, "the accumulated matrix is returned")
        X.oblige(c, "the requested shape", And(ex(shape[0]) == ex(N), ex(shape[1]) == dim))
        X.oblige(c, "the requested type", dt is None)
        X.oblige(c, "as many rows, columns and values as entries", And(*[shape_is(a, n * m) for a in (i, j, v)]))
        e = idx(c, n, "e")
        X.reached(c, "entry")
        for k in range(m):
            q = e * m + k
            X.oblige(c, "row of an entry", ex(i.at(q)) == ex(I_.at(e, k)))
            X.oblige(c, "column of an entry", ex(j.at(q)) == (2 if scalar else ex(J.at(e, k))))
            X.oblige(c, "value of an entry", ex(v.at(q)) == (z3.RealVal("3/2") if scalar else ex(V.at(e, k))))
    return H(f"dense scalar={scalar}", [f"{GU}:dense"], run)


def harnesses():
    return ([closest(2), closest(3), moves(2), moves(2, pfix=True), moves(3, pfix=True), moves(2, corners=True),
             edge_list(2), edge_list(3), forces(2), forces(3),
             forces(2, True), forces(3, True), accumulate(False), accumulate(True)])
