"""C20 splitting and gathering across ranks"""
from ..hlp import *
from ..run import H
from .. import symnp, logic
from ..logic import Unsupported
from ..loops import Inv
from ..pyload import Mod, AnyMod
from .comm import Comm

ASSUMPTIONS = ["MPI: Reduce with SUM gives the root the entrywise sum over the ranks, every rank of a communicator calls the same "
               "collectives; messages of one pair of ranks and one tag arrive in order",
               "the local meshes are those of fix_mesh (C07)"]


# ------------------------------------------------------------------ gathering
class GComm(Comm):
    def __init__(self, c, X, shared, cP, cT):
        Comm.__init__(self, c)
        self.X, self.shared, self.counts, self.reduced = X, shared, (cP, cT), 0

    def Reduce(self, send, recv, op=None, root=0):
        c, X = self.c, self.X
        if op != "SUM" or not symnp.is_num(root) or root != 0 or self.reduced >= 2:
            raise Unsupported("another reduction")
        X.oblige(c, "the counts are exchanged before the meshes", len(self.log) == 0)
        j = idx(c, self.n, "j")
        X.oblige(c, "one count per rank", shape_is(send, self.n))
        v = ex(send.at(j))
        for k, f in enumerate(self.counts):
            if c.implied(v == z3.If(j.e == self.r.e, f(self.r.e), 0)):
                which = k
                break
        else:
            raise Unsupported("another way of sharing the counts")
        # the entrywise sum over all ranks, each of which contributes its own entry
        self.reduced += 1
        f = self.counts[which]
        if c.implied(self.r.e == 0):
            recv[:] = symnp.SymArray((self.n,), lambda i: S(f(ex(i))), "i")


def local(c, dim):
    """local meshes of all ranks (after fix_mesh)"""
    nP, nT = c.fresh_fn("nP", I, I), c.fresh_fn("nT", I, I)
    P, T = c.fresh_fn("P", I, I, I, R), c.fresh_fn("T", I, I, I, I)

    def cnt(f, r):
        v = f(ex(r))
        if c.once(("cnt", v)):
            c.fact(v >= 0)
        return S(v)
    pts = lambda r: symnp.SymArray((cnt(nP, r), dim), lambda i, d: S(P(ex(r), ex(i), ex(d))), "f")
    els = lambda r: symnp.SymArray((cnt(nT, r), dim + 1), lambda i, d: S(T(ex(r), ex(i), ex(d))), "i")
    return nP, nT, P, T, pts, els, cnt


def gather(dim, shared):
    def run(c, X):
        role = "root" if c.choose("role") else "other"
        c.same_sums = True
        nP, nT, P, T, pts, els, cnt = local(c, dim)
        comm = GComm(c, X, shared, nP, nT)
        r, n = comm.r, comm.n
        c.assume(r.e == 0 if role == "root" else r.e >= 1)
        p0, t0, _, _ = mesh(c, dim, "0")

        def fix(p, t, delete_unused=False, dim=2, **k):
            alike(X, c, p, p0, "the local mesh is cleaned (vertices)")
            alike(X, c, t, t0, "the local mesh is cleaned")
            X.oblige(c, "unused vertices are removed before the gathering", delete_unused is True and dim == dim_)
            return pts(r), els(r), symnp.arange(cnt(nP, r))
        dim_ = dim
        # numbers of vertices/elements of the ranks before
        sP = symnp.cumsum(symnp.SymArray((n,), lambda i: S(nP(ex(i))), "i"))
        sT = symnp.cumsum(symnp.SymArray((n,), lambda i: S(nT(ex(i))), "i"))

        def upto(s, f, i):
            """number in the ranks 0..i"""
            cnt(f, i)
            return ex(s.at(S(ex(i))))

        def before(s, f, i):
            upto(s, f, i)
            return z3.If(ex(i) == 0, z3.IntVal(0), upto(s, f, S(ex(i) - 1)))
        q = idx(c, n, "q")
        k, e = S(c.fresh("k", I)), S(c.fresh("e", I))
        c.assume(And(k.e >= 0, k.e < nP(q.e), e.e >= 0, e.e < nT(q.e)))
        oP, oT = before(sP, nP, q), before(sT, nT, q)
        c.assume(And(sP.at(S(z3.IntVal(0))).e == nP(z3.IntVal(0)), sT.at(S(z3.IntVal(0))).e == nT(z3.IntVal(0))))
        cut = {}

        def expected(env, i):
            """state of the root after the ranks 0..i"""
            G, F = symnp.asarray(env["gpoints"]), symnp.asarray(env["gfaces"])
            d, m = c.fresh("d", I), c.fresh("m", I)
            dd, mm = And(d >= 0, d < dim), And(m >= 0, m <= dim)
            uP, uT = upto(sP, nP, i), upto(sT, nT, i)
            return [("the vertices of the ranks so far (number)", shape_is(G, S(uP), dim)),
                    ("the elements of the ranks so far (number)", shape_is(F, S(uT), dim + 1)),
                    ("the counts are not negative", And(uP >= 0, uT >= 0)),
                    ("a gathered vertex keeps its place", Imp(q.e <= ex(i), And(oP + k.e < uP, oP >= 0))),
                    ("a gathered element keeps its place", Imp(q.e <= ex(i), And(oT + e.e < uT, oT >= 0))),
                    ("every vertex is gathered in rank order",
                     Imp(q.e <= ex(i), And(*[ex(G.at(S(oP + k.e), x)) == P(q.e, k.e, x) for x in range(dim)]))),
                    ("every element is gathered, its indices shifted by the vertices of the ranks before",
                     Imp(q.e <= ex(i), And(*[ex(F.at(S(oT + e.e), x)) == T(q.e, e.e, x) + oP for x in range(dim + 1)])))]

        def havoc(c, env, i):
            comm.log = []
            cut["at"] = i
            if role == "root":
                return {"gpoints": arr(c, "G", (S(upto(sP, nP, i)), dim)),
                        "gfaces": arr(c, "F", (S(upto(sT, nT, i)), dim + 1), "i")}
            return {}

        def holds(c, env, i):
            out = []
            if not (symnp.is_num(i) and i == 0):
                log = [x for x in comm.log]
                if log or cut.get("at") is not i:
                    messages(env, i, log)
            if role == "root":
                out = expected(env, i)
            return out

        def messages(env, i, log):
            """the messages of the iteration for rank i"""
            me = i
            tags = [x[2] for x in log]
            if role == "root":
                X.oblige(c, "the root receives two messages per rank", len(log) == 2 and all(x[0] == "recv" for x in log))
                compare(tags)
                return
            if c.decide(r.e == ex(me)):
                X.oblige(c, "a rank sends its vertices and its elements", len(log) == 2 and all(x[0] == "send" for x in log))
                X.oblige(c, "to the root", And(*[ex(x[1]) == 0 for x in log]))
                for (_, _, tag, a), (nm, want) in zip(log, (("vertices", pts(r)), ("elements", els(r)))):
                    alike(X, c, a, want, f"the {nm} of the rank are sent, vertices first")
                compare(tags)
                X.reached(c, "sent")
            else:
                X.oblige(c, "a rank sends only in its turn", len(log) == 0)

        def compare(tags):
            """both sides use the same tags in the same order (so no rank waits, even when sends wait)"""
            if not all(symnp.is_num(x) for x in tags):
                raise Unsupported("computed tags")
            X.oblige(c, "sender and receiver agree on the order of the messages", shared.setdefault("tags", tags) == tags)

        def recv(source, tag):
            """the root receives from the rank of this turn what that rank sends (contract shown in the other role)"""
            got = [x for x in comm.log if x[0] == "recv"]
            i = cut["at"] + 1
            X.oblige(c, "the root receives from the rank whose turn it is", ex(source) == ex(i))
            if len(got) >= 2:
                raise Unsupported("more messages")
            return (pts if len(got) == 0 else els)(i).ravel()
        comm.recv_value = recv
        inv = [Inv("gather", lambda i, en: i[1] == "aggregate", havoc, holds)]
        w = world(stubs={f"{GEO}:fix_mesh": fix}, loops=inv, **{"mpi4py": Mod("mpi4py", MPI=Mod("mpi4py.MPI", SUM="SUM"))})
        out = w.fn(MIG, "aggregate")(p0, t0, comm, n, r, dim=dim)
        X.oblige(c, "both counts are reduced", comm.reduced == 2)
        X.reached(c, "gathered")
        if role == "root":
            G, F = out
            for nm, f in expected({"gpoints": G, "gfaces": F}, n - 1):
                X.oblige(c, "the root returns: " + nm, f)
    return H(f"aggregate dim={dim}", [f"{MIG}:aggregate"], run)


# ------------------------------------------------------------------ distribution
class LComm(Comm):
    def __init__(self, c, X, value):
        Comm.__init__(self, c, lo=2)
        self.X, self.value = X, value

    def bcast(self, obj, root=0):
        self.log.append(("bcast", root, None, obj))
        return self.value(obj, root)


def spread(dim, shared):
    """localize_points: rank r gets block r and everybody the extents"""
    def run(c, X):
        nb = c.fresh_fn("nb", I, I)
        Bf = c.fresh_fn("B", I, I, I, R)

        def block(r):
            v = nb(ex(r))
            if c.once(("nb", v)):
                c.fact(v >= 1)
            return symnp.SymArray((S(v), dim), lambda i, d: S(Bf(ex(r), ex(i), ex(d))), "f")
        ef = c.fresh_fn("extent", I, I, R)

        def value(obj, root):
            X.oblige(c, "the extents come from the root", ex(root) == 0)
            if c.implied(comm.r.e == 0):
                X.oblige(c, "the extents are broadcast", obj is ext)
                return obj
            return ext2
        comm = LComm(c, X, value)
        r, n = comm.r, comm.n
        root = c.choose("root")
        c.assume(r.e == 0 if root else r.e >= 1)
        mk = lambda: symnp.SymList(n, lambda i: [S(ef(ex(i), z3.IntVal(k))) for k in range(2 * dim)])
        ext, ext2 = mk(), mk()
        cut = {}

        def recv(source, tag):
            X.oblige(c, "blocks come from the root", ex(source) == 0)
            X.oblige(c, "one block per rank", not any(x[0] == "recv" for x in comm.log))
            tags(tag)
            return block(r).ravel()
        comm.recv_value = recv

        def tags(tag):
            if not symnp.is_num(tag):
                raise Unsupported("computed tags")
            X.oblige(c, "sender and receiver use the same tag", shared.setdefault("tag", tag) == tag)

        def have(env, i):
            """after the turns 1..i"""
            out = []
            got = z3.simplify(ex(i) >= 1) if root else ex(i) >= r.e
            if c.decide(got):
                p = env.get("points")
                if p is None:
                    return [("the points are there", False)]
                p, b = symnp.asarray(p), block(r)
                k, d = c.fresh("k", I), c.fresh("d", I)
                out += [("the own block (number)", shape_is(p, *b.shape)),
                        ("the own block", Imp(And(k >= 0, k < ex(b.shape[0]), d >= 0, d < dim),
                                              ex(p.at(S(k), S(d))) == ex(b.at(S(k), S(d)))))]
            return out

        def havoc(c, env, i):
            comm.log = []
            cut["at"] = i
            st = {}
            if c.decide(z3.simplify(ex(i) >= 1) if root else ex(i) >= r.e):
                st["points"] = block(r)
            some = c.decide(ex(i) >= 1)
            st["extents"] = ext if root else (ext2 if some else None)
            return st

        def holds(c, env, i):
            if comm.log:
                p2p = [x for x in comm.log if x[0] != "bcast"]
                X.oblige(c, "one broadcast per turn, after the block of the turn is on its way",
                         [x[0] for x in comm.log].count("bcast") == 1 and comm.log[-1][0] == "bcast")
                if root:
                    X.oblige(c, "the root sends one block per turn", len(p2p) == 1 and p2p[0][0] == "send")
                    _, to, tag, a = p2p[0]
                    X.oblige(c, "to the rank whose turn it is", ex(to) == ex(i))
                    tags(tag)
                    alike(X, c, a, block(i), "its own block")
                    X.reached(c, "block sent")
                else:
                    mine = c.decide(r.e == ex(i))
                    X.oblige(c, "a rank receives in its turn only", (len(p2p) == 1 and p2p[0][0] == "recv") if mine else len(p2p) == 0)
            e = env.get("extents")
            if c.decide(z3.simplify(ex(i) >= 1)):
                X.oblige(c, "everybody has the extents", e is ext or e is ext2)
            return have(env, i)
        inv = [Inv("turns", lambda i, en: i[1] == "localize_points", havoc, holds)]
        w = world(loops=inv)
        bl = symnp.SymList(n, block) if root else None
        p, e = w.fn(MIG, "localize_points")(bl, ext if root else None, comm, dim)
        X.reached(c, "distributed")
        X.oblige(c, "every rank has the extents of all", e is ext or e is ext2)
        alike(X, c, p, block(r), "every rank has its own block")
    return H(f"localize_points dim={dim}", [f"{MIG}:localize_points"], run)


def points_of_user(dim, par):
    def run(c, X):
        X.canary = None
        n = iv(c, "np", 1)
        p = arr(c, "p", (n, dim))
        fh, fh2 = object(), object()
        got, ext, bl, ext0 = arr(c, "own", (iv(c, "m", 1), dim)), object(), object(), object()
        opts = {"axis": 1}
        comm = Comm(c, lo=2 if par else 1)
        if not par:
            c.assume(comm.n.e == 1)
            comm.n = 1
            comm.r = 0

        def blocker(points=None, rank=None, num_blocks=None, axis=0):
            alike(X, c, points, p, "the points of the user are split")
            X.oblige(c, "on the root only", ex(comm.r) == 0)
            X.oblige(c, "one block per rank", ex(num_blocks) == ex(comm.n))
            X.oblige(c, "along the requested axis", axis == 1)
            return bl, ext0

        def loc(blocks, extents, cm, d):
            root = c.implied(comm.r.e == 0)
            X.oblige(c, "the blocks are distributed", (blocks is bl and extents is ext0) if root else (blocks is None and extents is None))
            X.oblige(c, "among the ranks of this communicator", cm is comm and d == dim)
            return got, ext
        w = world(stubs={f"{DEC}:blocker": blocker, f"{MIG}:localize_points": loc,
                         f"{MIG}:localize_sizing_function": lambda *a: fh2})
        f, q, e = w.fn(GEN, "_user_defined_points")(dim, fh, 1.0, None, p, comm, opts)
        X.reached(c, "points")
        if par:
            X.oblige(c, "a rank starts from its own block", q is got and e is ext)
        else:
            alike(X, c, q, p, "all points on one process")
    return H(f"_user_defined_points dim={dim} {'parallel' if par else 'serial'}", [f"{GEN}:_user_defined_points"], run)


# ------------------------------------------------------------------ blocks
class Blocks(symnp.SymList):
    """list of blocks; what is appended is checked, what is observed afterwards are non-empty blocks of the points"""

    def __init__(self, c, dim, add, m=0, cov=None):
        nb = c.fresh_fn("rows", I, I)
        V = c.fresh_fn("block", I, I, I, R)
        self.add, self.cov = add, z3.BoolVal(False) if cov is None else cov

        def get(j):
            v = nb(ex(j))
            if c.once(("rows", v)):
                c.fact(v >= 1)
            return symnp.SymArray((S(v), dim), lambda i, d: S(V(ex(j), ex(i), ex(d))), "f")
        symnp.SymList.__init__(self, m, get)

    def append(self, b):
        self.cov = z3.Or(self.cov, self.add(b))
        self.n = symnp.norm_dim(self.n + 1)


CUT = {0: 1, 1: 0, 2: 2}


def blocks(dim, axis):
    """every point is in a block; the block made in turn j lies in slab j; extents are exact"""
    def run(c, X):
        n = iv(c, "np", 1)
        nb = iv(c, "nblocks", 1)
        p = arr(c, "p", (n, dim))
        k = idx(c, n, "k")
        v0 = p.buf.version
        a = CUT[axis]
        # slack for rounding, relative to any bound of the coordinates
        big = rv(c, "big")
        c.assume(big.e >= 1)
        c.assume_all([n, dim], lambda i, d: z3.And(ex(p.at(i, d)) <= big.e, ex(p.at(i, d)) >= -big.e))
        tol = big.e * z3.RealVal("1e-9")
        lo, hi = p[:, a].min(), p[:, a].max()
        cut = {}
        lines = recorded(nb)
        x = ex(p.at(k, a))
        w_ = S(ex(hi) - ex(lo)) / nb

        def start(i):
            """lower end of slab i as the code computes it, in terms of its width h"""
            if "h" not in cut:
                if len(lines) != 1:
                    raise Unsupported("the slabs are computed differently")
                L, H, _ = lines[0]
                cut["L"], cut["D"] = ex(logic.real(L)), ex(logic.real(H) - logic.real(L))
                h = cut["h"] = c.fresh("width", R)
                c.fact(h * z3.ToReal(nb.e) == cut["D"])
                u = cut["u"] = c.fresh("gain", R)
                c.fact(u == h - ex(w_))
                X.oblige(c, "the slabs cover the points", And(cut["L"] <= ex(lo), cut["L"] + cut["D"] >= ex(hi)))
                X.cut(c, "width of a slab", ex(S(cut["D"]) / nb) == h)
            L, D, h = cut["L"], cut["D"], cut["h"]
            e = z3.ToReal(ex(i))
            low = lines[0][2].at(S(ex(i)))
            if c.once(("low", ex(low))):
                c.hold(ex(low))
                X.cut(c, "start of a slab", (ex(low) - L) * z3.ToReal(nb.e) == e * D)
                X.lemma(c, "starts are evenly spaced", [S(ex(low) - L), S(e), S(D), S(z3.ToReal(nb.e)), S(h)],
                        lambda q, i, D, n, h: z3.And(q * n == i * D, h * n == D, n >= 1), lambda q, i, D, n, h: q == i * h)
                X.lemma(c, "the ends meet", [S(e), S(D), S(z3.ToReal(nb.e)), S(h)],
                        lambda i, D, n, h: z3.And(h * n == D, n >= 1, i == n), lambda i, D, n, h: i * h == D)
            return L + e * h

        def add(b):
            i = cut["at"]
            b = symnp.asarray(b)
            tag = getattr(b, "tag", None)
            if not tag or tag[0] != "filter" or b.ndim != 2:
                raise Unsupported("blocks are built differently")
            X.reached(c, "block")
            m, src, dst = b.shape[0], tag[1], tag[2]
            r, d = idx(c, m, "r"), idx(c, dim, "d")
            X.oblige(c, "a block consists of points", And(ex(src(r)) >= 0, ex(src(r)) < n.e,
                                                           ex(b.at(r, d)) == ex(p.at(S(ex(src(r))), d))))
            X.oblige(c, "each point once", Imp(And(ex(src(r)) == k.e), ex(dst(k)) == r.e))
            y = ex(b.at(r, a))
            st = start(i)
            e, h = z3.ToReal(ex(i)), cut["h"]
            ew, eh, w, D, E = z3.simplify(e * ex(w_)), e * h, ex(w_), cut["D"], ex(hi) - ex(lo)
            ew, L, q4 = e * w, cut["L"], tol / 4
            X.lemma(c, "rounding slack of a slab", [S(e), S(z3.ToReal(nb.e)), S(h), S(w), S(D), S(E)],
                    lambda i, n, h, w, D, E: z3.And(h * n == D, w * n == E, D >= E, i >= 0, i + 1 <= n),
                    lambda i, n, h, w, D, E: z3.And(i * w <= i * h, i * h + h <= i * w + w + (D - E)))
            low = ex(lines[0][2].at(S(ex(i))))
            slack = z3.And(D - E <= q4, L <= ex(lo), L >= ex(lo) - q4, D >= E)
            X.cut(c, "rounding slack", slack)
            for nm, prem, goal in (("lower", y >= st - q4, y >= ex(lo) + ew - tol),
                                   ("upper", y <= st + h + q4, y <= ex(lo) + ew + w + tol)):
                X.cut(c, f"a block lies in its slab ({nm} limit tested)", prem)
                X.derive(c, f"a block lies in its slab ({nm} end)", goal,
                         [prem, slack, ew <= eh, eh + h <= ew + w + (D - E), tol >= 0], gen=[ew, eh, h, w, D, E, y, L, ex(lo), tol])
            q = dst(k)
            c.note(m, ex(q))
            return z3.And(ex(q) >= 0, ex(q) < ex(m), ex(src(S(ex(q)))) == k.e)

        def havoc(c, env, i):
            cut["at"] = i
            m = iv(c, "m", 0)
            return {"blocks": Blocks(c, dim, add, m, c.fresh("covered", B))}

        def holds(c, env, i):
            b = env["blocks"]
            if type(b) is list and not b:
                return [("the first slab starts below the points", x >= start(i))]
            if not isinstance(b, Blocks):
                raise Unsupported("another list of blocks")
            return [("a point in no block yet lies beyond the slabs so far", z3.Or(b.cov, x >= start(i)))]
        inv = [Inv("slabs", lambda i, en: i[1] == "blocker" and type(en.get("blocks")) is list, havoc, holds)]
        wd = world(loops=inv)
        try:
            out, exts = wd.fn(DEC, "blocker")(points=p, rank=0, num_blocks=nb, axis=axis)
        except AssertionError:
            X.oblige(c, "only too few points are refused", n.e < 2 * nb.e)
            return
        X.reached(c, "split")
        unmodified(X, c, "the points", (p, v0))
        start(nb)
        X.oblige(c, "every point is in a block", out.cov)
        X.oblige(c, "one extent per block", ex(exts.n) == ex(out.n))
        b = idx(c, out.n, "b")
        E, blk = exts.get(b), out.get(b)
        r = idx(c, blk.shape[0], "r")
        X.oblige(c, "two corners", len(E) == 2 * dim)
        for d in range(dim):
            y = ex(blk.at(r, d))
            X.oblige(c, f"axis {d}: the block is within its extent", And(y >= ex(E[d]), y <= ex(E[dim + d])))
            for e, nm in ((E[d], "lower"), (E[dim + d], "upper")):
                X.oblige(c, f"axis {d}: the {nm} end is attained", Ex([blk.shape[0]], lambda i: ex(blk.at(i, d)) == ex(e)))
    return H(f"blocker dim={dim} axis={axis}", [f"{DEC}:blocker"], run)


def recorded(n):
    """the evenly spaced numbers the code asks for (n of them)"""
    out, real_ = [], symnp.__dict__["linspace"]
    real_ = getattr(real_, "original", real_)

    def linspace(lo, hi, num=50, endpoint=True, **k):
        r = real_(lo, hi, num, endpoint=endpoint, **k)
        if not symnp.is_num(num) and ex(num).eq(ex(n)):
            if endpoint:
                raise Unsupported("slab limits of another kind")
            out.append((lo, hi, r))
        return r
    linspace.original = real_
    symnp.linspace = linspace
    return out


def harnesses():
    return ([gather(d, {}) for d in (2, 3)] + [spread(d, {}) for d in (2, 3)]
            + [points_of_user(d, s) for d in (2, 3) for s in (True, False)]
            + [blocks(d, a) for d in (2, 3) for a in range(d)])
