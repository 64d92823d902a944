"""C22 initial vertices"""
from ..hlp import *
from ..run import H
from ..loops import Inv
from .. import symnp, logic
from ..logic import Unsupported
from .genmesh import Comm
from .field import Field

ASSUMPTIONS = ["numpy.random.rand returns the numbers in [0,1) determined by the last seed, in order",
               "lattice and sizes in exact arithmetic"]


def odds():
    """the odd numbers below the iteration count"""
    def name(env):
        ks = [k for k, v in env.items() if type(v) is list or isinstance(v, symnp.SymList)]
        if len(ks) != 1:
            raise KeyError("list")
        return ks[0]

    def havoc(c, env, i):
        f, n = c.fresh_fn("odd", I, I), iv(c, "nodd", 0)
        c.__dict__.setdefault("odd", []).append(n)
        return {name(env): symnp.SymList(n, lambda k: S(f(ex(k))))}

    def holds(c, env, i):
        v = env[name(env)]
        n = len(v) if type(v) is list else v.n
        get = v.__getitem__ if type(v) is list else v.get
        out = [("as many as odd numbers so far", And(2 * ex(n) <= ex(i), ex(i) <= 2 * ex(n) + 1))]
        if type(v) is not list or v:
            out.append(("odd numbers in order", All([n], lambda k: ex(get(S(ex(k)))) == 2 * ex(k) + 1)))
        return out
    return Inv("odd rows", lambda i, e: i[1] == "odd", havoc, holds)


def lattice(dim):
    def run(c, X):
        h0 = rv(c, "h0")
        c.assume(h0.e > 0)
        box = arr(c, "bbox", (dim, 2))
        for d in range(dim):
            c.assume(ex(box.at(d, 0)) < ex(box.at(d, 1)))
        w = world(loops=[odds()])
        c.arange_log = []
        P = w.fn(GU, "create_staggered_grid")(h0, dim, box)
        X.oblige(c, "one coordinate per dimension", P.ndim == 2 and symnp.dim_eq(P.shape[1], dim) is True)
        X.oblige(c, "the box is not modified", box.buf.version == 0)
        if len(c.arange_log) != dim:
            raise Unsupported("the lattice is built differently")
        ns = [n for n in c.arange_log]
        X.reached(c, "lattice")
        # an arbitrary point of the box
        x = [rv(c, f"x{d}") for d in range(dim)]
        for d in range(dim):
            c.assume(And(x[d].e >= ex(box.at(d, 0)), x[d].e <= ex(box.at(d, 1))))
        # nearest lattice index per axis (witness)
        N = ex(P.shape[0])
        i = [c.fresh(f"i{d}", I) for d in range(dim)]
        for d in range(dim):
            s = shift(i, d, h0.e)
            lo = ex(box.at(d, 0)) + s
            t = x[d].e - lo
            c.fact(i[d] >= 0)
            c.fact(z3.And(z3.Implies(t <= 0, i[d] == 0),
                          z3.Implies(t > 0, z3.And(z3.ToReal(i[d]) * h0.e <= t + h0.e / 2, t - h0.e / 2 <= z3.ToReal(i[d]) * h0.e))))
            X.oblige(c, f"axis {d}: the nearest row exists", i[d] < ex(ns[d]))
            c.assume(i[d] < ex(ns[d]))
            c.note(ns[d], i[d])
        for n in getattr(c, "odd", []):
            for d in range(dim - 1):
                c.note(n, (i[d] - 1) / 2)
        r = row(i, ns)
        got = [ex(P.at(S(r), d)) for d in range(dim)]
        for d in range(dim):
            X.oblige(c, f"axis {d}: within half a spacing of every point of the box",
                     And(got[d] - x[d].e <= h0.e / 2, x[d].e - got[d] <= h0.e / 2))
        X.oblige(c, "one vertex per lattice index", N == prod([ex(n) for n in ns]))
        # two different lattice indices
        js = []
        for k in range(2):
            j = [c.fresh(f"j{d}", I) for d in range(dim)]
            for d in range(dim):
                c.fact(z3.And(j[d] >= 0, j[d] < ex(ns[d])))
                c.note(ns[d], j[d])
            js.append(j)
            for n in getattr(c, "odd", []):
                c.note(n, (j[0] - 1) / 2)
        c.assume(z3.Or(*[a != b for a, b in zip(*js)]))
        a, b = [[ex(P.at(S(row(j, ns)), d)) for d in range(dim)] for j in js]
        X.oblige(c, "different vertices are at least one spacing apart",
                 z3.Or(*[z3.Or(x - y >= h0.e, y - x >= h0.e) for x, y in zip(a, b)]))
    return H(f"lattice dim={dim}", [f"{GU}:create_staggered_grid", f"{GU}:odd"], run)


def prod(v):
    return v[0] if len(v) == 1 else prod(v[:-2] + [v[-2] * v[-1]])


def row(i, ns):
    r = i[0]
    for d in range(1, len(i)):
        r = r * ex(ns[d]) + i[d]
    return r


def shift(i, d, h0):
    """rows of odd index are offset"""
    return z3.If(i[0] % 2 == 1, h0 / 2, z3.RealVal(0)) if d else z3.RealVal(0)


def ranks(dim, axis):
    """the part of the box each rank fills with vertices (at least two ranks, slabs wider than the spacing)"""
    def run(c, X):
        h0, size = rv(c, "h0"), iv(c, "size", 1)
        rank = idx(c, size, "rank")
        c.assume(h0.e > 0)
        box = arr(c, "bbox", (dim, 2))
        for d in range(dim):
            c.assume(ex(box.at(d, 0)) < ex(box.at(d, 1)))
        seen = []

        def grid(h, n, b):
            seen.append((h, n, symnp.asarray(b).copy()))
            return arr(c, "P", (iv(c, "n", 0), dim))
        w = world(stubs={f"{GU}:create_staggered_grid": grid})
        r = w.fn(GU, "make_init_points")(box, rank, size, axis, h0, dim)
        if len(seen) != 1:
            raise Unsupported("the points of a rank are made differently")
        X.reached(c, "lattice of a rank")
        h, n, b = seen[0]
        X.oblige(c, "requested spacing", And(ex(h) == h0.e, n == dim))
        X.oblige(c, "the box of the caller is not modified", box.buf.version == 0)
        for d in range(dim):
            if d != axis:
                X.oblige(c, "full extent along the other axes", And(ex(b.at(d, 0)) == ex(box.at(d, 0)), ex(b.at(d, 1)) == ex(box.at(d, 1))))
        lo, hi = ex(box.at(axis, 0)), ex(box.at(axis, 1))
        sz, rk = z3.ToReal(size.e), z3.ToReal(rank.e)
        L = (hi - lo) / sz
        c.fact(z3.And(L * sz == hi - lo, L > 0))
        X.oblige(c, "every rank ends at the end of its slab", ex(b.at(axis, 1)) == lo + L * (rk + 1))
        st = ex(b.at(axis, 0))
        X.oblige(c, "the first rank starts at the box", Imp(rank.e == 0, st == lo))
        X.oblige(c, "the other ranks continue after the last row of the rank below",
                 Imp(rank.e > 0, And(st >= lo + L * rk + h0.e, st < lo + L * rk + 2 * h0.e)))
    return H(f"rank lattice dim={dim} axis={axis}", [f"{GU}:make_init_points"], run)


def select(dim, fixed, h0_is_r0m):
    """which lattice points become initial vertices (serial)"""
    def run(c, X):
        h0, geps = rv(c, "h0"), rv(c, "geps")
        c.assume(And(h0.e > 0, geps.e > 0))
        fd, fh = Field(c, dim, "fd"), Field(c, dim, "fh")
        nfix = iv(c, "nfix", 1) if fixed else 0
        pfix = arr(c, "pfix", (nfix, dim)) if fixed else symnp.zeros((0, dim))
        N = iv(c, "N", 1)
        P = arr(c, "lattice", (N, dim))
        P0 = P.copy()
        seed = iv(c, "seed")
        bbox = arr(c, "bbox", (dim, 2))
        calls = []

        def grid(h, n, b):
            calls.append((h, n, b))
            return P
        # sizes are positive, some lattice point is inside
        f = lambda k: ex(fd.at([P0.at(S(ex(k)), d) for d in range(dim)]))
        g = lambda k: ex(fh.at([P0.at(S(ex(k)), d) for d in range(dim)]))
        c.assume_all([N], lambda k: g(k) > 0)
        first = idx(c, N, "first")
        c.assume(f(first) < geps.e)
        opts = {"r0m_is_h0": h0_is_r0m, "seed": seed, "axis": 0, "points": None}
        c.calls = []
        w = world(stubs={f"{GU}:create_staggered_grid": grid})
        try:
            r = w.fn(GEN, "_generate_initial_points")(h0, geps, dim, bbox, fh, fd, pfix, Comm(), opts, True)
        except ValueError:
            X.oblige(c, "no error when a lattice point lies inside the domain", f(first) >= geps.e, rounds=3)
            return
        fh2, p, ext = r
        X.reached(c, "points")
        if len(calls) != 1:
            raise Unsupported("another lattice")
        h, n, b = calls[0]
        X.oblige(c, "lattice of the requested spacing over the box", And(ex(h) == h0.e, n == dim, b is bbox))
        X.oblige(c, "the size function is handed on", fh2 is fh)
        rnd = [k for k in c.calls if k[0].startswith("np.random")]
        X.oblige(c, "the generator is seeded with the requested seed before one draw",
                 And(len(rnd) == 2, rnd[0][0] == "np.random.seed", rnd[1][0] == "np.random.rand", ex(rnd[0][1]) == seed.e)
                 if len(rnd) == 2 and rnd[0][0] == "np.random.seed" else False)
        X.oblige(c, "one coordinate per dimension", p.ndim == 2 and symnp.dim_eq(p.shape[1], dim) is True)
        M = p.shape[0]
        if fixed:
            q = idx(c, nfix, "q")
            c.note(M, q.e)
            X.oblige(c, "fixed points come first", And(ex(M) >= nfix.e, *[ex(p.at(q, d)) == ex(pfix.at(q, d)) for d in range(dim)]))
        if len(fh.calls) != 1 or len(getattr(c, "rands", [])) != 1:
            raise Unsupported("sizes and random numbers are obtained differently")
        A, U = fh.calls[0], c.rands[0]
        nin = A.shape[0]
        at = lambda a, k: [ex(a.at(S(ex(k)), d)) for d in range(dim)]
        same = lambda u, v: And(*[x == y for x, y in zip(u, v)])
        c.assume(nfix.e >= 1 if fixed else True)
        # candidates
        k = idx(c, nin, "k")
        X.oblige(c, "every candidate is a lattice point inside the domain",
                 Ex([N], lambda j: And(same(at(A, k), at(P0, j)), f(j) < geps.e)), rounds=3)
        j = idx(c, N, "j")
        X.oblige(c, "every lattice point inside the domain is a candidate",
                 Imp(f(j) < geps.e, Ex([nin], lambda q: same(at(A, q), at(P0, j)))), rounds=3)
        X.oblige(c, "one random number per candidate", shape_is(U, nin))
        size = lambda q: fh.f(*at(A, q))
        pw = lambda e: e * e if dim == 2 else e * e * e
        if h0_is_r0m:
            lo, hi = h0.e, h0.e * z3.RealVal("11/10")
        else:
            lo = hi = c.fresh("smallest", R)
            w0 = idx(c, nin, "w")
            c.assume(lo == size(w0))
            c.assume_all([nin], lambda q: lo <= size(q))
        sz, u = c.fresh("size", R), ex(U.at(k))
        c.assume(size(k) > 0)
        X.oblige(c, "candidates below the ratio of the smallest to the local size are kept",
                 Imp(u < pw(lo) / pw(size(k)), Ex([M], lambda m: And(ex(m) >= ex(nfix), same(at(p, m), at(A, k))))), rounds=3)
        m = idx(c, M, "m")
        c.assume(m.e >= ex(nfix))
        X.oblige(c, "only candidates below the ratio are kept",
                 Ex([nin], lambda q: And(same(at(p, m), at(A, q)), ex(U.at(S(ex(q)))) < pw(hi) / pw(size(q)))), rounds=3)
    return H(f"selection dim={dim} fixed={fixed} r0m_is_h0={h0_is_r0m}", [f"{GEN}:_generate_initial_points", f"{GEN}:_form_extents"], run)


def harnesses():
    return ([lattice(2), lattice(3)] + [ranks(2, 0), ranks(3, 1), ranks(3, 2)]
            + [select(d, f, h) for d in (2, 3) for f in (False, True) for h in (False, True)])
