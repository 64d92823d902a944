"""C13 gradation limiting"""
from ..hlp import *
from ..run import H
from ..loops import Inv
from ..pyload import Mod, SymRange
from .. import symnp, shims, cxx, logic
from ..logic import Unsupported

ASSUMPTIONS = ["the grid is indexed in first-axis-fastest order (contract of ind2sub/sub2ind, shown on their source)",
               "exact reals; products of grid sizes fit into an int"]
HJ = "sizing/cpp/FastHJ.cpp"


class Grid:
    """grid nodes: abstract numbering with its coordinates"""

    def __init__(self, c, X):
        self.c, self.X = c, X
        self.n = [iv(c, f"n{d}", 1) for d in range(3)]
        self.N = iv(c, "N", 1)
        self.node = c.fresh_fn("node", I, I, I, I)
        self.co = [c.fresh_fn(f"co{d}", I, I) for d in range(3)]

    def coords(self, n):
        """coordinates of node n"""
        c, n = self.c, ex(n)
        e = [f(n) for f in self.co]
        if c.once(("coords", n)):
            c.hold(n)
            c.fact(z3.Implies(z3.And(n >= 0, n < self.N.e),
                              z3.And(self.node(*e) == n, *[z3.And(x >= 0, x < k.e) for x, k in zip(e, self.n)])))
        return e

    def at(self, *x):
        c = self.c
        x = [z3.simplify(ex(v)) for v in x]
        m = self.node(*x)
        if c.once(("node", m)):
            c.hold(m)
            c.fact(z3.Implies(z3.And(*[z3.And(v >= 0, v < k.e) for v, k in zip(x, self.n)]),
                              z3.And(m >= 0, m < self.N.e, *[f(m) == v for f, v in zip(self.co, x)])))
            c.note(self.N, m)
        return m

    def succ(self, n, d):
        """(exists, the next node along axis d)"""
        e = self.coords(n)
        y = [x + 1 if k == d else x for k, x in enumerate(e)]
        return e[d] + 1 < self.n[d].e, self.at(*y)

    # contracts of the index conversions
    def sub2ind(self, row, col, z, nrows, ncols):
        self.X.oblige(self.c, "grid sizes handed to sub2ind", And(ex(nrows) == self.n[0].e, ex(ncols) == self.n[1].e))
        x = [ex(v) - 1 for v in (row, col, z)]
        self.X.oblige(self.c, "sub2ind is called inside the grid",
                      And(*[And(v >= 0, v < k.e) for v, k in zip(x, self.n)]))
        return S(self.at(*x)) + 1

    def ind2sub(self, index, nrows, ncols, i, j, k):
        self.X.oblige(self.c, "grid sizes handed to ind2sub", And(ex(nrows) == self.n[0].e, ex(ncols) == self.n[1].e))
        n = z3.simplify(ex(index) - 1)
        self.X.oblige(self.c, "ind2sub is called inside the grid", And(n >= 0, n < self.N.e))
        e = self.coords(n)
        i.v, j.v, k.v = [S(x) + 1 for x in e]


def filt(A, value):
    """contract of findIndices"""
    rd = A.clone()
    m, src, dst = symnp.filter_index(A.n, lambda i: S(ex(rd.read(i)) == ex(value)))
    v = cxx.Vec(m, src, "i", "int")
    v.dst, v.of, v.value = dst, rd, value
    return v


class Sweep:
    """c_limgrad: invariants of its three loops"""

    def __init__(self, c, X, keep=False):
        self.c, self.X, self.keep = c, X, keep
        g = self.g = Grid(c, X)
        self.f0 = arr(c, "f0", (g.N,))
        self.under = arr(c, "under", (g.N,))
        self.elen, self.dfdx, self.imax = rv(c, "elen"), rv(c, "dfdx"), iv(c, "imax", 0)
        c.assume(And(self.elen.e >= 0, self.dfdx.e >= 0))
        self.low = c.fresh("low", R)
        w = idx(c, g.N, "argmin")
        c.assume(And(self.low == ex(self.f0.at(w)), self.low > 0))
        c.assume_all([g.N], lambda k: ex(self.f0.at(k)) >= self.low)
        # a field below the input that satisfies the bound
        u = lambda n: ex(self.under.at(S(ex(n))))
        step = c.fresh("step", R)
        self.step = self.elen.e * self.dfdx.e
        c.fact(z3.And(self.step >= 0))

        def admissible(n):
            out = [u(n) <= ex(self.f0.at(n))]
            for d in range(3):
                has, s = g.succ(n, d)
                out.append(z3.Implies(has, z3.And(u(n) - u(s) <= self.step, u(s) - u(n) <= self.step)))
            return z3.And(*out)
        c.assume_all([g.N], admissible)
        self.tol = self.low * ex(cxx.Lib.call_sqrt(cxx.Lib.flt("1.0000000000000001E-9")))
        self.done = None

    def ok(self, a, b):
        return z3.And(a - b <= self.step + self.tol, b - a <= self.step + self.tol)

    def roles(self, env):
        f = [k for k, v in env.items() if isinstance(v, cxx.Vec) and v.kind == "f" and v is not self.inp]
        a = [k for k, v in env.items() if isinstance(v, cxx.Vec) and v.kind == "i" and not hasattr(v, "dst") and v is not self.dims]
        p = [k for k, v in env.items() if isinstance(v, cxx.CArr) and len(v) == 7]
        if len(f) != 1 or len(a) != 1 or len(p) != 1:
            raise KeyError("roles")
        return f[0], a[0], p[0]

    def base(self, env, it):
        """bounds of values and marks"""
        F, A, _ = self.roles(env)
        f, a, g = env[F], env[A], self.g
        out = [("one value and mark per node", And(ex(f.n) == g.N.e, ex(a.n) == g.N.e)),
               ("values never above the input", All([g.N], lambda n: ex(f.read(n)) <= ex(self.f0.at(n)))),
               ("values never below an admissible field", All([g.N], lambda n: ex(f.read(n)) >= ex(self.under.at(n)))),
               ("values never below the smallest input", All([g.N], lambda n: ex(f.read(n)) >= self.low)),
               ("marks are iteration numbers", All([g.N], lambda n: And(ex(a.read(n)) >= -1, ex(a.read(n)) <= it)))]
        if self.keep:
            out.append(("values unchanged", All([g.N], lambda n: ex(f.read(n)) == ex(self.f0.at(n)))))
        return out

    def pairs(self, env, pend):
        F, A, _ = self.roles(env)
        f, a, g = env[F], env[A], self.g

        def one(n):
            out = []
            for d in range(3):
                has, s = g.succ(n, d)
                x, y = ex(f.read(S(ex(n)))), ex(f.read(S(s)))
                out.append(z3.Implies(has, z3.Or(self.ok(x, y), pend(a, ex(n), s))))
            return z3.And(*out)
        return ("neighbouring values are within the bound or pending", All([g.N], one))

    def fresh(self, env):
        c, g = self.c, self.g
        F, A, P = self.roles(env)
        f, a = c.fresh_fn("f", I, R), c.fresh_fn("mark", I, I)
        return {F: cxx.Vec(g.N, lambda n: S(f(ex(n))), "f", "double"), A: cxx.Vec(g.N, lambda n: S(a(ex(n))), "i", "int"),
                P: cxx.CArr([cxx.Undef("neighbour")] * 7)}

    def active(self, env):
        v = [x for x in env.values() if isinstance(x, cxx.Vec) and hasattr(x, "dst")]
        return v[0] if v else None

    def level(self, ident, env):
        """0: sweeps, 1: active nodes, 2: neighbours"""
        F, A, P = self.roles(env)
        mut = set(ident[4])
        if F not in mut or A not in mut:
            return None
        if self.active(env) is None:
            return 0
        return 1 if P in mut else 2

    def marked(self, env):
        """pairs with a node that was changed in this sweep"""
        return lambda a, n, s: z3.Or(ex(a.read(S(n))) == self.it, ex(a.read(S(s))) == self.it)

    def todo(self, env, frm):
        """active nodes not processed yet"""
        v = self.active(env)

        def un(n):
            self.c.note(v.n, ex(v.dst(S(n))))
            return z3.And(ex(v.of.read(S(n))) == self.it - 1, ex(v.dst(S(n))) >= frm)
        return lambda a, n, s: z3.Or(un(n), un(s))

    def loops(self):
        def mine(k):
            return lambda i, e: i[1].endswith("c_limgrad") and self.level(i, e) == k

        def h0(c, env, i):
            self.it, self.done = ex(i), ex(i)
            return self.fresh(env)

        def i0(c, env, i):
            i = ex(i)
            return self.base(env, i - 1) + [self.pairs(env, lambda a, n, s: z3.Or(
                ex(a.read(S(n))) == i - 1, ex(a.read(S(s))) == i - 1))]

        def h1(c, env, i):
            self.pos = ex(i)
            v = self.active(env)
            if not symnp.is_num(i):
                c.note(v.n, ex(i))
            return self.fresh(env)

        def i1(c, env, i):
            m, t = self.marked(env), self.todo(env, ex(i))
            return self.base(env, self.it) + [self.pairs(env, lambda a, n, s: z3.Or(m(a, n, s), t(a, n, s)))]

        def h2(c, env, i):
            new = self.fresh(env)
            new.pop(self.roles(env)[2])
            return new

        def i2(c, env, i):
            v = self.active(env)
            m, t = self.marked(env), self.todo(env, self.pos + 1)
            here = ex(v.read(S(self.pos)))
            P = env[self.roles(env)[2]]
            near = [ex(list.__getitem__(P, r)) for r in range(1, 7)]

            def left(x):
                return z3.Or(*[z3.And(z3.IntVal(r) >= ex(i), near[r] == x) for r in range(6)])
            return self.base(env, self.it) + [self.pairs(env, lambda a, n, s: z3.Or(
                m(a, n, s), t(a, n, s), z3.And(n == here, left(s)), z3.And(s == here, left(n))))]
        out = [Inv("sweeps", mine(0), h0, i0), Inv("active nodes", mine(1), h1, i1), Inv("neighbours", mine(2), h2, i2)]
        out[2].force = True
        return out

    def go(self):
        g = self.g
        u = cxx.Unit(HJ, stubs={"findIndices": filt, "sub2ind": g.sub2ind, "ind2sub": g.ind2sub}, loops=self.loops())
        self.dims = cxx.Vec(3, lambda k: symnp.select([lambda n=n: n for n in g.n], k), "i", "int")
        self.inp = cxx.Vec(g.N, lambda n: self.f0.at(n), "f", "double")


        def least(a, b):
            """contract of std::min_element on the whole input"""
            if a.vec is not self.inp or not (symnp.is_num(a.pos) and a.pos == 0 and b.vec is self.inp and ex(b.pos).eq(ex(g.N))):
                raise Unsupported("least element of another range")
            return cxx.Found(S(self.low))
        u.lib.call_min_element = least
        # the grid has one node per index triple
        self.c.fact(g.n[0].e * g.n[1].e * g.n[2].e == g.N.e)
        return u.fn("c_limgrad")(self.dims, self.elen, self.dfdx, self.imax, self.inp)


def sweep(keep):
    def run(c, X):
        w = Sweep(c, X, keep)
        g = w.g
        if keep:
            def flat(n):
                out = []
                for d in range(3):
                    has, s = g.succ(n, d)
                    x, y = ex(w.f0.at(S(ex(n)))), ex(w.f0.at(S(s)))
                    out.append(z3.Implies(has, z3.And(x - y <= w.step, y - x <= w.step)))
                return z3.And(*out)
            c.assume_all([g.N], flat)
        r = w.go()
        X.reached(c, "limited field")
        n = idx(c, g.N, "n")
        v = ex(r.read(n))
        X.oblige(c, "one value per node", ex(r.n) == g.N.e)
        X.oblige(c, "never above the input", v <= ex(w.f0.at(n)))
        X.oblige(c, "never below the smallest input", v >= w.low)
        X.oblige(c, "never below a field that satisfies the bound", v >= ex(w.under.at(n)))
        if keep:
            X.oblige(c, "a field that satisfies the bound is returned unchanged", v == ex(w.f0.at(n)))
            return
        for d in range(3):
            has, s = g.succ(n, d)
            X.oblige(c, f"axis {d}: neighbours differ by at most the bound once converged",
                     Imp(has, Or(w.done == w.imax.e, w.ok(v, ex(r.read(S(s)))))), rounds=3)
    return H("c_limgrad" + (" on a smooth field" if keep else ""), ["FastHJ.cpp:c_limgrad"], run, budget=400)


def conversions():
    """ind2sub and sub2ind realise the first-axis-fastest numbering"""
    def run(c, X):
        n = [iv(c, f"n{d}", 1) for d in range(3)]
        x = [idx(c, n[d], f"x{d}") for d in range(3)]
        u = cxx.Unit(HJ)
        r = u.fn("sub2ind")(x[0] + 1, x[1] + 1, x[2] + 1, n[0], n[1])
        lin = x[0].e + n[0].e * (x[1].e + n[1].e * x[2].e)
        X.oblige(c, "sub2ind numbers the nodes first axis fastest, from 1", ex(r) == lin + 1)
        # bounds of the partial sums
        row, mid = c.fresh("row", I), x[0].e + n[0].e * x[1].e
        X.lemma(c, "a column lies within its layer", [x[0], x[1], n[0], n[1]],
                lambda a, b, p, q: z3.And(a >= 0, a < p, b >= 0, b <= q - 1, p >= 1),
                lambda a, b, p, q: z3.And(a + p * b >= 0, a + p * b < p * q))
        X.lemma(c, "layers do not overlap", [S(mid), x[2], n[2], S(n[0].e * n[1].e)],
                lambda m, z, k, L: z3.And(m >= 0, m < L, z >= 0, z <= k - 1),
                lambda m, z, k, L: z3.And(m + L * z >= 0, m + L * z < L * k))
        X.oblige(c, "numbers lie within the grid", And(ex(r) >= 1, lin < n[0].e * n[1].e * n[2].e))
        box = [cxx.Box(cxx.Undef(k)) for k in "ijk"]
        u.fn("ind2sub")(S(lin) + 1, n[0], n[1], *box)
        X.reached(c, "conversion")
        L = n[0].e * n[1].e
        # ceil of the quotient: L*z < number <= L*(z+1)
        X.lemma(c, "layer of a number", [S(ex(box[2].v)), S(lin), x[2], S(L), S(mid)],
                lambda k, v, z, L, m: z3.And(L >= 1, m >= 0, m < L, v == m + L * z, L * (k - 1) < v + 1, v + 1 <= L * k),
                lambda k, v, z, L, m: k == z + 1)
        X.oblige(c, "ind2sub finds the layer", ex(box[2].v) == x[2].e + 1)
        X.oblige(c, "ind2sub finds the column", ex(box[1].v) == x[1].e + 1)
        X.oblige(c, "ind2sub finds the row", ex(box[0].v) == x[0].e + 1)
    return H("index conversions", ["FastHJ.cpp:ind2sub", "FastHJ.cpp:sub2ind"], run)


def indices():
    """findIndices lists the positions of a value in increasing order"""
    def run(c, X):
        N, val = iv(c, "N", 0), iv(c, "value")
        A = arr(c, "A", (N,), "i")

        def out(env):
            v = [k for k, v in env.items() if isinstance(v, cxx.Vec) and v is not inp]
            if len(v) != 1:
                raise KeyError("result")
            return v[0]

        def havoc(c, env, i):
            f = c.fresh_fn("B", I, I)
            m = iv(c, "m", 0)
            return {out(env): cxx.Vec(m, lambda k: S(f(ex(k))), "i", "int")}

        def holds(c, env, i):
            v = env[out(env)]
            m = v.n
            rd = lambda k: ex(v.read(S(ex(k))))

            def entry(k):
                c.note(N, rd(k))
                return z3.And(rd(k) >= 0, rd(k) < ex(i), ex(A.at(S(rd(k)))) == val.e)
            return [("every entry is a position of the value seen so far", All([m], entry) if not (symnp.is_num(m) and m == 0) else True),
                    ("increasing", All([m, m], lambda a, b: z3.Implies(ex(a) < ex(b), rd(a) < rd(b))) if not (symnp.is_num(m) and m == 0) else True),
                    ("every position seen so far is listed",
                     All([N], lambda j: Imp(And(ex(j) < ex(i), ex(A.at(S(ex(j)))) == val.e), Ex([m], lambda k: rd(k) == ex(j)))))]
        inv = Inv("positions", lambda i, e: i[1].endswith("findIndices"), havoc, holds)
        u = cxx.Unit(HJ, loops=[inv])
        inp = cxx.vec_of(A)
        r = u.fn("findIndices")(inp, val)
        X.reached(c, "positions")
        k, q, j = idx(c, r.n, "k"), idx(c, r.n, "q"), idx(c, N, "j")
        v = ex(r.read(k))
        X.oblige(c, "only positions of the value", And(v >= 0, v < N.e, ex(A.at(S(v))) == val.e))
        X.oblige(c, "increasing", Imp(k.e < q.e, v < ex(r.read(q))))
        X.oblige(c, "every position of the value", Imp(ex(A.at(j)) == val.e, Ex([r.n], lambda k: ex(r.read(S(ex(k)))) == j.e)), rounds=3)
    return H("findIndices", ["FastHJ.cpp:findIndices"], run)


def wrapper():
    """the binding hands the field over unchanged and returns the limited one"""
    def run(c, X):
        N = iv(c, "N", 1)
        dims, f = arr(c, "dims", (3,), "i"), arr(c, "f", (N,))
        e, d, m = rv(c, "elen"), rv(c, "dfdx"), iv(c, "imax")
        out = arr(c, "out", (N,))
        seen = []

        def lim(cd, ce, cf, cm, cffun):
            seen.append((cd, ce, cf, cm, cffun))
            return cxx.vec_of(out)
        u = cxx.Unit(HJ, stubs={"c_limgrad": lim})
        r = u.fn("limgrad")(dims, e, d, m, f)
        if len(seen) != 1:
            raise Unsupported("another kernel")
        X.reached(c, "call")
        cd, ce, cf, cm, v = seen[0]
        k = idx(c, N, "k")
        X.oblige(c, "grid sizes", And(ex(cd.n) == 3, *[ex(cd[q]) == ex(dims.at(q)) for q in range(3)]))
        X.oblige(c, "spacing, rate and limit", And(ex(ce) == e.e, ex(cf) == d.e, ex(cm) == m.e))
        X.oblige(c, "the field", And(ex(v.n) == N.e, ex(v[k]) == ex(f.at(k))))
        X.oblige(c, "result", And(shape_is(r, N, 1), ex(r.at(k, 0)) == ex(out.at(k))))
    return H("binding", ["FastHJ.cpp:limgrad"], run)


def layout(dim):
    """_enforce_gradation_sizing: layout of the field around the kernel"""
    def run(c, X):
        sh = [iv(c, f"n{d}", 1) for d in range(dim)]
        f = arr(c, "sizes", tuple(sh))
        v0 = f.buf.version
        grade, elen = rv(c, "grade"), rv(c, "elen")
        seen = []
        res = {}

        def lim(dims, e, d, m, ffun):
            ffun = symnp.asarray(ffun)
            seen.append((dims, e, d, m, ffun))
            res["out"] = arr(c, "limited", (ffun.shape[0], 1))
            return res["out"].copy()
        w = world(_FastHJ=Mod("_FastHJ", limgrad=lim))
        fn = w.fn(SIZ, "_enforce_gradation_sizing")
        try:
            r = fn(f, grade, elen)
        except ValueError:
            X.reached(c, "rejected")
            X.oblige(c, "only negative rates are rejected", grade.e < 0)
            return
        X.reached(c, "result")
        X.oblige(c, "negative rates are rejected", grade.e >= 0)
        X.oblige(c, "the sizes of the caller are not modified", f.buf.version == v0)
        X.oblige(c, "same grid", shape_is(r, *sh))
        x = [idx(c, n, "i") for n in sh]
        if not seen:
            X.oblige(c, "skipped only without a rate", grade.e == 0)
            X.oblige(c, "sizes are then unchanged", ex(r.at(*x)) == ex(f.at(*x)))
            return
        dims, e, d, m, flat = seen[0]
        X.oblige(c, "one call of the kernel", len(seen) == 1)
        D = [dims[k] for k in range(3)] if len(dims) == 3 else []
        X.oblige(c, "grid sizes", And(*[ex(a) == ex(b) for a, b in zip(D, sh + [1])]) if len(D) == 3 else False)
        X.oblige(c, "spacing and rate", And(ex(e) == elen.e, ex(d) == grade.e))
        X.oblige(c, "iteration limit", ex(m) >= 1)
        lin = x[dim - 1]
        for k in range(dim - 2, -1, -1):
            lin = lin * sh[k] + x[k]
        X.oblige(c, "every size is handed over at its node", ex(flat.at(symnp.norm_index(lin))) == ex(f.at(*x)))
        X.oblige(c, "every limited size returns to its node", ex(r.at(*x)) == ex(res["out"].at(symnp.norm_index(lin), 0)))
    return H(f"layout dim={dim}", [f"{SIZ}:_enforce_gradation_sizing"], run)


def harnesses():
    return [sweep(False), sweep(True), conversions(), indices(), wrapper(), layout(2), layout(3)]
