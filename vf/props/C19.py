"""C19 halo exchange"""
from ..hlp import *
from ..run import H
from .. import symnp, logic, cxx
from ..logic import Unsupported
from ..loops import Inv
from ..pyload import Mod, AnyMod
from .comm import Comm
from . import genmesh, where

ASSUMPTIONS = ["MPI delivers the messages of one pair of ranks and one tag in order; a blocking send returns at the latest "
               "when its message is received",
               "CGAL lists the vertices of a triangulation in order of insertion (ghosts last)"]


def exchange(dim, orders):
    """one message to and from each neighbour, in an order with a global potential"""
    def run(c, X):
        rows = iv(c, "rows", 1)
        E = arr(c, "exports", (rows, dim + 1))
        nb, na = iv(c, "nb", 0), iv(c, "na", 0)
        c.assume(And(ex(E.at(0, 0)) == z3.ToReal(nb.e), ex(E.at(0, 1)) == z3.ToReal(na.e), nb.e + na.e + 1 <= rows.e))
        got = []

        def value(source, tag):
            a = arr(c, "ghosts", (iv(c, "nghost", 0), dim))
            got.append((source, a))
            return a
        comm = Comm(c, recv=value)
        r, n = comm.r, comm.n
        v0 = E.buf.version
        out = world().fn(MIG, "exchange")(comm, r, n, E, dim=dim)
        X.reached(c, "exchanged")
        below, above = c.implied(r.e > 0), c.implied(r.e < n.e - 1)
        if not (below or c.implied(r.e == 0)) or not (above or c.implied(r.e == n.e - 1)):
            raise Unsupported("the ranks at the ends are not distinguished")
        log = []
        for kind, who, tag, obj in comm.log:
            d = z3.simplify(ex(who) - r.e)
            X.oblige(c, "messages go to and come from neighbours", Or(ex(who) == r.e - 1, ex(who) == r.e + 1))
            X.oblige(c, "no message beyond the last rank", And(ex(who) >= 0, ex(who) < n.e))
            log.append((kind, "below" if c.implied(ex(who) == r.e - 1) else "above", tag, obj))
        want = {(k, w) for k in ("send", "recv") for w, on in (("below", below), ("above", above)) if on}
        seen = [(k, w) for k, w, *_ in log]
        X.oblige(c, "one message to and one from each existing neighbour", sorted(seen) == sorted(want))
        tags = {(k, w): t for k, w, t, _ in log}
        orders["tags"] = orders.get("tags", {})
        for (k, w), t in tags.items():
            if not symnp.is_num(t):
                raise Unsupported("computed tags")
            # the message to below is the one the rank below receives from above
            key = "down" if (k, w) in (("send", "below"), ("recv", "above")) else "up"
            X.oblige(c, "sender and receiver use the same tag", orders["tags"].setdefault(key, t) == t)
        # potential: along every rank's program the messages have increasing potential
        ev = []
        for k, w in seen:
            down = (k, w) in (("send", "below"), ("recv", "above"))
            ev.append((down, r.e if w == "below" else r.e + 1))      # edge between rank-1 and rank, rank and rank+1
        left = []
        for nm in orders["left"]:
            f = POTENTIAL[nm]
            p = [f(d, e, n.e) for d, e in ev]
            if all(c.implied(a < b) for a, b in zip(p, p[1:])):
                left.append(nm)
        orders["left"] = left
        X.oblige(c, "the order of the messages cannot deadlock, even when sends wait for the receiver", len(left) > 0)
        for k, w, t, obj in log:
            if k != "send":
                continue
            m, off = (nb, 1) if w == "below" else (na, ex(nb) + 1)
            a = symnp.asarray(obj)
            X.oblige(c, f"the points for the rank {w} are sent (number)", shape_is(a, m, dim))
            q, d = idx(c, m, "q"), idx(c, dim, "d")
            X.oblige(c, f"the points for the rank {w} are sent", ex(a.at(q, d)) == ex(E.at(S(q.e + off), d)))
        # ghosts: from above first
        src = {}
        for who, a in got:
            src["below" if c.implied(ex(who) == r.e - 1) else "above"] = a
        na_ = src["above"].shape[0] if "above" in src else 0
        nb_ = src["below"].shape[0] if "below" in src else 0
        X.oblige(c, "every ghost is returned (number)", shape_is(out, symnp.norm_dim(na_ + nb_), dim))
        d = idx(c, dim, "d")
        if "above" in src:
            q = idx(c, na_, "q")
            X.oblige(c, "ghosts from above come first", ex(out.at(q, d)) == ex(src["above"].at(q, d)))
        if "below" in src:
            q = idx(c, nb_, "q")
            X.oblige(c, "then the ghosts from below", ex(out.at(S(q.e + ex(na_)), d)) == ex(src["below"].at(q, d)))
        unmodified(X, c, "the export table", (E, v0))
    return H(f"exchange dim={dim}", [f"{MIG}:exchange"], run)


# message potentials: any of them that increases along every rank's program excludes a cycle of waiting ranks
POTENTIAL = {
    "down sweep, then up from the top": lambda down, e, n: e if down else 2 * n - e,
    "down sweep, then up from the bottom": lambda down, e, n: e if down else n + e,
    "down from the bottom last": lambda down, e, n: n + e if down else e,
    "up from the top, then down": lambda down, e, n: n + e if down else n - e,
    "down from the top, then up": lambda down, e, n: n - e if down else n + e,
    "down from the top, up from the top": lambda down, e, n: n - e if down else 2 * n - e,
    "up from the top, down from the top": lambda down, e, n: 2 * n - e if down else n - e,
}


def boxes(c, n, dim):
    """extents of every rank, the same on all ranks"""
    f = c.fresh_fn("extent", I, I, R)
    return symnp.SymList(n, lambda i: [S(f(ex(i), z3.IntVal(k))) for k in range(2 * dim)]), f


def enqueue(dim):
    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        comm = Comm(c, lo=2)
        r, n = comm.r, comm.n
        ext, f = boxes(c, n, dim)
        seen = []
        out = arr(c, "table", (nv + 1, dim + 1))

        def where(points, faces, llc, urc, rank):
            seen.append((points, faces, symnp.asarray(llc).copy(), symnp.asarray(urc).copy(), rank))
            return out

        def wrong(*a):
            X.oblige(c, "the table of this dimension", False)
            return out
        u = Mod("_cpputils", where_to2=where if dim == 2 else wrong, where_to3=where if dim == 3 else wrong)
        w = world(_cpputils=u)
        v0, v1 = p.buf.version, t.buf.version
        got = w.fn(MIG, "enqueue")(ext, p, t, r, n, dim=dim)
        X.reached(c, "queued")
        if len(seen) != 1:
            raise Unsupported("the table is computed differently")
        pp, tt, le, re, rank = seen[0]
        alike(X, c, pp, p, "the points of this rank")
        alike(X, c, tt, t, "the elements of this rank")
        alike(X, c, got, out, "the table is returned")
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
        le, re = le.ravel(), re.ravel()
        X.oblige(c, "two boxes", And(shape_is(le, 2 * dim), shape_is(re, 2 * dim)))
        for d in range(dim):
            for k, nm, on, nb in ((0, "below", r.e > 0, r.e - 1), (1, "above", r.e < n.e - 1, r.e + 1)):
                lo, hi = ex(logic.real(le.at(k * dim + d))), ex(logic.real(re.at(k * dim + d)))
                X.oblige(c, f"axis {d}: box {k} is that of the rank {nm}",
                         Imp(on, And(lo == f(nb, d), hi == f(nb, d + dim))))
                # a box nothing reaches
                X.oblige(c, f"axis {d}: without a rank {nm} the box is far away",
                         Imp(z3.Not(on), And(lo <= hi, hi <= -999999998)))
    return H(f"enqueue dim={dim}", [f"{MIG}:enqueue"], run)


class Dt:
    def __init__(self, g):
        self.g = g

    def insert(self, pts):
        self.g.append(pts)


def ghosts(dim):
    """_add_ghost_vertices: export table, exchange, insertion of what was received, count of the new vertices"""
    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        comm = Comm(c, lo=2)
        ext, f = boxes(c, comm.n, dim)
        table = arr(c, "table", (nv + 1, dim + 1))
        ghosts_ = arr(c, "ghosts", (iv(c, "nghost", 0), dim))
        ev = []
        ins = []
        P2, T2, nv2, nt2 = mesh(c, dim, "2")
        T3 = arr(c, "T3", (iv(c, "nt3", 0), dim + 1), "i")
        c.assume(And(nv2.e >= nv.e, nv2.e <= nv.e + ghosts_.shape[0].e))

        def enq(extents, points, faces, rank, size, dim=2):
            alike(X, c, points, p, "the table is of the vertices of this rank")
            alike(X, c, faces, t, "the table is of the elements of this rank")
            X.oblige(c, "the table is for this rank", And(extents is ext, ex(rank) == comm.r.e, ex(size) == comm.n.e, dim == dim_))
            ev.append("enqueue")
            return table

        def exch(cm, rank, size, exports, dim=2):
            X.oblige(c, "the exchange is between the ranks of this communicator",
                     And(cm is comm, ex(rank) == comm.r.e, ex(size) == comm.n.e, dim == dim_))
            alike(X, c, exports, table, "the table is sent")
            ev.append("exchange")
            return ghosts_.copy()

        def topo(dt):
            X.oblige(c, "the triangulation with the ghosts is read", dt is tri and len(ins) == 1)
            ev.append("topology")
            return P2.copy(), T2.copy()

        def rem(points, faces, extent, dim=2):
            alike(X, c, points, P2, "elements of the new triangulation are removed (vertices)")
            alike(X, c, faces, T2, "elements of the new triangulation are removed")
            X.oblige(c, "outside the extents of this rank",
                     And(dim == dim_, *[ex(extent[k]) == f(comm.r.e, k) for k in range(2 * dim_)]))
            ev.append("remove")
            return points, T3.copy(), symnp.arange(nv2)
        dim_ = dim
        tri = Dt(ins)
        st = {f"{MIG}:enqueue": enq, f"{MIG}:exchange": exch, f"{GEN}:_get_topology": topo,
              f"{GEO}:remove_external_entities": rem}
        w = world(stubs=st)
        q, s, inv, cnt = w.fn(GEN, "_add_ghost_vertices")(p, t, tri, ext, comm)
        X.reached(c, "ghosts added")
        X.oblige(c, "one table, one exchange, one insertion", ev == ["enqueue", "exchange", "topology", "remove"] and len(ins) == 1)
        flat = symnp.asarray(ins[0])
        k, d = idx(c, ghosts_.shape[0], "k"), idx(c, dim, "d")
        X.oblige(c, "every received point is inserted (number)", shape_is(flat, ghosts_.shape[0] * dim))
        X.oblige(c, "every received point is inserted", ex(flat.at(S(k.e * dim + d.e))) == ex(ghosts_.at(k, d)))
        alike(X, c, q, P2, "the vertices with ghosts are returned")
        alike(X, c, s, T3, "the elements left are returned")
        X.oblige(c, "the ghosts are the vertices beyond the local ones", ex(cnt) == nv2.e - nv.e)
        j = idx(c, nv2, "j")
        X.oblige(c, "the map has an entry per vertex", shape_is(inv, nv2))
        X.oblige(c, "the map keeps the numbers", ex(inv.at(j)) == j.e)
    return H(f"_add_ghost_vertices dim={dim}", [f"{GEN}:_add_ghost_vertices"], run)


class Par(Comm):
    """every rank computes the same smallest size"""

    def bcast(self, x, root=0):
        return x


def loop(dim):
    """ghosts, and only ghosts, are removed at the end of every iteration"""
    def run(c, X):
        g = genmesh.Run(c, X, dim, comm=Par(c, lo=2))
        g.extents = [None]
        c.assume(g.h0.e > 0)

        def step(g, env):
            gh = g.ev.get("ghosts", [])
            pr = g.ev.get("project", [])
            if not pr:
                raise Unsupported("the step is organised differently")
            X.oblige(c, "ghosts are added once per iteration", len(gh) == 1)
            X.reached(c, "iteration")
            gh, q, p = gh[0], pr[-1]["out"], env["p"]
            m = p.shape[0]
            nloc = gh["p"].shape[0]
            alike(X, c, gh["p"], g.tp, "the ghosts are added to the vertices of this triangulation")
            k, k2, j = idx(c, m, "k"), idx(c, m, "k2"), idx(c, nloc, "j")
            c.note(q.shape[0], j.e)
            kept = getattr(p, "tag", None)
            if kept and kept[0] == "filter":         # witness: a remaining vertex keeps the number it had
                c.note(nloc, ex(kept[1](k)))
            same = lambda a, b: z3.And(*[ex(p.at(a, d)) == ex(q.at(b, d)) for d in range(dim)])
            X.oblige(c, "what remains are local vertices after their move", Ex([nloc], lambda i: same(k, i)), rounds=4)
            X.oblige(c, "every local vertex remains", Ex([m], lambda i: same(i, j)), rounds=4)
        try:
            g.go(step)
        except (ValueError, AssertionError):
            return
    return H(f"generate_mesh ghosts dim={dim}", [f"{GEN}:generate_mesh"], run)


def harnesses():
    return [h(d) for d in (2, 3) for h in (lambda d: exchange(d, {"left": list(POTENTIAL)}), enqueue, ghosts, loop)] + where.harnesses()
