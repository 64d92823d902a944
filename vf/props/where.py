"""the compiled export table (cpputils.cpp: build_vtoe2/3, c_where_to2/3, where_to2/3)

A vertex is marked by the first of its elements (in the order of the vertex-to-element map) that
is not flat, whose bounding box overlaps one of the two boxes, and whose circumscribed ball meets
one of them: marked for the rank below if the ball meets the first box, otherwise for the rank above."""
from ..hlp import *
from ..run import H
from .. import symnp, logic, cxx
from ..logic import Unsupported
from ..loops import Inv

CPP = "migration/cpp/cpputils.cpp"


class Pt:
    def __init__(self, *c):
        self.c = [logic.real(x) for x in c]

    def x(self):
        return self.c[0]

    def y(self):
        return self.c[1]

    def z(self):
        return self.c[2]


class Shape:
    def __init__(self, *c):
        self.c = c


def uf(name, pts, res=R, extra=()):
    xs = [real_(x) for p in pts for x in p.c] + [real_(x) for x in extra]
    return S(z3.Function(name, *([R] * len(xs)), res)(*xs))


def real_(x):
    return ex(logic.real(x))


class Cgal:
    """contract of the CGAL predicates and constructions: functions of the coordinates they are given"""

    def __init__(self, dim):
        self.dim = dim

    def Point(self, *xs):
        return xs[0] if len(xs) == 1 and isinstance(xs[0], Pt) else Pt(*xs)

    Point3 = Point_2 = Point_3 = Point

    def Rectangle(self, *a):
        return a[0] if len(a) == 1 else Shape(*a)

    Cuboid = Iso_rectangle_2 = Iso_cuboid_3 = Rectangle

    def Bbox_2(self, *a):
        return a[0] if len(a) == 1 else Shape(*a)

    Bbox_3 = Bbox_2

    def do_overlap(self, a, b):
        d = len(a.c) // 2
        r = []
        for k in range(d):
            r += [real_(a.c[d + k]) >= real_(b.c[k]), real_(b.c[d + k]) >= real_(a.c[k])]
        return S(z3.And(*r))

    def collinear(self, *pts):
        return uf("collinear", pts, B)

    def volume(self, *pts):
        return uf("signed_volume", pts)

    def coplanar(self, *pts):
        return S(uf("signed_volume", pts).e == 0)

    def circumcenter(self, *pts):
        return Pt(*[uf(f"circumcenter{len(pts) - 1}_{k}", pts) for k in range(len(pts) - 1)])

    def squared_radius(self, *pts):
        return uf(f"squared_radius{len(pts) - 1}", pts)

    def Circle(self, *a):
        return a[0] if len(a) == 1 else Shape(*a[:2])

    Sphere = Circle_2 = Sphere_3 = Circle

    def do_intersect(self, ball, box):
        c, r = ball.c
        lo, hi = box.c
        return uf(f"ball_meets_box{self.dim}", [c, lo, hi], B, [r])


class Rows:
    """vertex-to-element map: row v lists elements, every one of them incident to v"""

    def __init__(self, c, nv, nt, t, dim):
        self.nv, self.nt, self.t, self.dim = nv, nt, t, dim
        self.len_, self.at_ = c.fresh_fn("degree", I, I), c.fresh_fn("incident", I, I, I)
        self.seen = set()

    def length(self, v):
        c = ctx()
        n = self.len_(ex(v))
        if n.get_id() not in self.seen:
            self.seen.add(n.get_id())
            c.hold(n)
            c.fact(n >= 0)
        return S(n)

    def elem(self, v, k):
        c = ctx()
        e = self.at_(ex(v), ex(k))
        if c.once(("incident", e)):
            c.fact(z3.Implies(z3.And(ex(v) >= 0, ex(v) < ex(self.nv), ex(k) >= 0, ex(k) < self.len_(ex(v))),
                              z3.And(e >= 0, e < ex(self.nt))))
            c.note(self.nt, e)
        return S(e)

    def __getitem__(self, v):
        ctx().need(z3.And(ex(v) >= 0, ex(v) < ex(self.nv)), "row of a vertex")
        return Row(self, v)

    at = __getitem__

    def size(self):
        raise Unsupported("number of rows of the vertex-to-element map")


class Row:
    def __init__(self, m, v):
        self.m, self.v = m, v

    def size(self):
        return self.m.length(self.v)

    def __getitem__(self, k):
        ctx().need(z3.And(ex(k) >= 0, ex(k) < ex(self.size())), "entry of a row")
        return self.m.elem(self.v, k)

    at = __getitem__


class Marks:
    """ghost state: the mark of every vertex and the numbers of marks before it"""

    def __init__(self, c, p, t, le, re, rows, cg):
        self.p, self.t, self.le, self.re, self.rows, self.cg = p, t, le, re, rows, cg
        self.h, self.M = c.fresh_fn("firsthit", I, I), c.fresh_fn("mark", I, I)
        self.cB, self.cA = c.fresh_fn("below", I, I), c.fresh_fn("above", I, I)
        self.dim = p.shape[1]

    def box(self, k):
        d = self.dim
        return Pt(*[self.le.at(k, a) for a in range(d)]), Pt(*[self.re.at(k, a) for a in range(d)])

    def tests(self, e):
        """(considered at all, meets the box below, meets the box above)"""
        d, cg = self.dim, self.cg
        pts = [Pt(*[self.p.at(self.t.at(e, k), a) for a in range(d)]) for k in range(d + 1)]
        lo, hi = [], []
        for a in range(d):
            m = n = ex(pts[0].c[a])
            for q in pts[1:]:
                v = ex(q.c[a])
                m, n = z3.If(v < m, v, m), z3.If(v > n, v, n)
            lo.append(S(m))
            hi.append(S(n))
        bb = cg.Bbox_2(*lo, *hi)
        over = [ex(cg.do_overlap(bb, cg.Bbox_2(*self.box(k)[0].c, *self.box(k)[1].c))) for k in range(2)]
        flat = cg.collinear(*pts) if d == 2 else cg.coplanar(*pts)
        ball = cg.Circle(cg.circumcenter(*pts), cg.squared_radius(*pts))
        hit = [ex(cg.do_intersect(ball, cg.Rectangle(*self.box(k)))) for k in range(2)]
        return z3.And(z3.Or(*over), z3.Not(ex(flat))), hit[0], hit[1]

    def hits(self, v, k):
        on, b, a = self.tests(self.rows.elem(v, k))
        return z3.And(on, z3.Or(b, a))

    def define(self, v):
        """mark of vertex v"""
        c, v = ctx(), ex(v)
        if not c.once(("mark", v)):
            return
        n, h = self.rows.length(S(v)), self.h(v)
        c.note(n, h)
        c.fact(z3.And(h >= 0, h <= ex(n)))
        c.assume_all([n], lambda k: z3.Implies(ex(k) < h, z3.Not(self.hits(S(v), k))))
        on, b, a = self.tests(self.rows.elem(S(v), S(h)))
        c.fact(z3.Implies(h < ex(n), z3.And(on, z3.Or(b, a))))
        c.fact(self.M(v) == z3.If(h == ex(n), z3.IntVal(-1), z3.If(b, z3.IntVal(0), z3.IntVal(1))))

    def step(self, i):
        """numbers of marks among the first i vertices"""
        c, i = ctx(), ex(i)
        z = z3.IntVal(0)
        if c.once(("marks", z)):
            c.fact(z3.And(self.cB(z) == 0, self.cA(z) == 0))
        if c.once(("marks", i)):
            c.fact(z3.Implies(i >= 0, z3.And(self.cB(i + 1) == self.cB(i) + z3.If(self.M(i) == 0, 1, 0),
                                             self.cA(i + 1) == self.cA(i) + z3.If(self.M(i) == 1, 1, 0))))


def num(x):
    """a count kept in a double"""
    return ex(logic.real(x))


def where_to(dim):
    name = f"where_to{dim}"

    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        le, re = arr(c, "le", (2, dim)), arr(c, "re", (2, dim))
        rank = iv(c, "rank", 0)
        vs = [x.buf.version for x in (p, t, le, re)]
        rows = Rows(c, nv, nt, t, dim)
        cg = Cgal(dim)
        g = Marks(c, p, t, le, re, rows, cg)
        q = idx(c, nv, "q")
        g.define(q)
        g.step(q)
        built = []
        cur = {}

        def vtoe(pp, tt):
            built.append(1)
            d = dim
            i, e, a, k = idx(c, nv, "v"), idx(c, nt, "el"), idx(c, d, "a"), idx(c, d + 1, "k")
            X.oblige(c, "the map is built from the vertices", And(ex(pp.size()) == d * nv.e,
                                                                ex(pp[S(d * i.e + a.e)]) == ex(p.at(i, a))))
            X.oblige(c, "the map is built from the elements", And(ex(tt.size()) == (d + 1) * nt.e,
                                                                ex(tt[S((d + 1) * e.e + k.e)]) == ex(t.at(e, k))))
            return rows

        def ints(env, names):
            v = [x for x in names if isinstance(env.get(x), cxx.Vec) and env[x].kind == "i"]
            return v[0] if len(v) == 1 else None

        def pick(env, names, word, not_=""):
            v = [x for x in names if word in x and symnp.is_num(env.get(x)) or word in x and isinstance(env.get(x), S)]
            if len(v) != 1:
                raise KeyError(f"the counter of the points {word}")
            return v[0]

        def counts(i):
            return ex(g.cB(ex(i))), ex(g.cA(ex(i)))

        def state(i):
            return lambda j: S(z3.If(ex(j) < ex(i), g.M(ex(j)), z3.IntVal(-1)))

        roles = {}

        def marking(env, i):
            b, a = counts(i)
            ve = env[roles["exports"]]
            return [("as many marks as vertices", ex(ve.n) == nv.e),
                    ("the vertices so far have their marks, the others none",
                     All([nv], lambda j: ex(ve.rd(j)) == ex(state(i)(j)))),
                    ("the points for the rank below are counted", num(env[roles["below"]]) == z3.ToReal(b)),
                    ("the points for the rank above are counted", num(env[roles["above"]]) == z3.ToReal(a)),
                    ("the counts are in range", And(b >= 0, a >= 0, b + a <= ex(i))),
                    ("a marked vertex is counted",
                     All([nv], lambda j: z3.Implies(ex(j) < ex(i), z3.And(
                         g.cB(ex(j)) >= 0, g.cA(ex(j)) >= 0,
                         z3.Implies(g.M(ex(j)) == 0, g.cB(ex(j)) + 1 <= b),
                         z3.Implies(g.M(ex(j)) == 1, g.cA(ex(j)) + 1 <= a)))))]

        def marked(env, i):
            b, a = counts(i)
            return {roles["exports"]: cxx.Vec(nv, state(i), "i", "int"),
                    roles["below"]: S(z3.ToReal(b)), roles["above"]: S(z3.ToReal(a))}

        def outer_havoc(c, env, i):
            cur["i"] = i
            g.define(i)
            g.step(i)
            return marked(env, i)

        def outer_holds(c, env, i):
            if symnp.is_num(i):
                g.step(S(z3.IntVal(i)))
            return marking(env, i)

        def inner_havoc(c, env, k):
            return marked(env, cur["i"])

        def inner_holds(c, env, k):
            i = cur["i"]
            n = rows.length(i)
            c.note(n, g.h(ex(i)))
            return marking(env, i) + [("no element so far marks the vertex",
                                       All([n], lambda m: z3.Implies(ex(m) < ex(k), z3.Not(g.hits(i, m)))))]

        def outer_is(ident, env):
            if roles or not ident[1].endswith(name):
                return False
            e = ints(env, ident[4])
            if e is None:
                return False
            roles.update(exports=e, below=pick(env, ident[4], "below"), above=pick(env, ident[4], "above"))
            roles["at"] = ident[:4]
            return True

        def is_outer(ident, env):
            return outer_is(ident, env) or roles.get("at") == ident[:4]

        def is_inner(ident, env):
            return bool(roles) and ident[1].endswith(name) and roles["exports"] in ident[4] and roles["at"] != ident[:4]

        tab = {}

        def is_table(ident, env):
            if not roles or not ident[1].endswith(name):
                return False
            v = [x for x in ident[4] if isinstance(env.get(x), cxx.Vec) and env[x].kind == "f"]
            if len(v) != 1 or roles["exports"] in ident[4]:
                return False
            tab.update(table=v[0], below=pick(env, ident[4], "below"), above=pick(env, ident[4], "above"))
            return True

        def place(j):
            """row of vertex j"""
            kb = g.cB(nv.e)
            return z3.If(g.M(ex(j)) == 0, 1 + g.cB(ex(j)), 1 + kb + g.cA(ex(j)))

        def filled(T, i, j):
            r = place(j)
            w = dim + 1
            return Imp(And(ex(j) < ex(i), g.M(ex(j)) != -1), And(
                *[ex(T.rd(S(w * r + a))) == ex(p.at(j, a)) for a in range(dim)],
                ex(T.rd(S(w * r + dim))) == z3.ToReal(ex(j))))

        def table_havoc(c, env, i):
            g.define(i)
            g.step(i)
            f = c.fresh_fn("T", I, R)
            b, a = counts(i)
            return {tab["table"]: cxx.Vec(symnp.norm_dim((nv + 1) * (dim + 1)), lambda j: S(f(ex(j))), "f", "double"),
                    tab["below"]: S(z3.ToReal(b)), tab["above"]: S(z3.ToReal(a))}

        def table_holds(c, env, i):
            T = env[tab["table"]]
            b, a = counts(i)
            return [("one row per vertex and a header", ex(T.n) == (dim + 1) * (nv.e + 1)),
                    ("the rows for the rank below so far are counted", num(env[tab["below"]]) == z3.ToReal(b)),
                    ("the rows for the rank above so far are counted", num(env[tab["above"]]) == z3.ToReal(a)),
                    ("the counts are in range", And(b >= 0, a >= 0, b <= g.cB(nv.e), a <= g.cA(nv.e))),
                    ("a vertex has a row before the next free ones", Imp(q.e < ex(i), And(
                        Imp(g.M(q.e) == 0, g.cB(q.e) + 1 <= b), Imp(g.M(q.e) == 1, g.cA(q.e) + 1 <= a)))),
                    ("a marked vertex has its row", filled(T, i, q))]
        inv = [Inv("marks", is_outer, outer_havoc, outer_holds), Inv("elements of a vertex", is_inner, inner_havoc, inner_holds),
               Inv("table", is_table, table_havoc, table_holds)]
        u = cxx.Unit(CPP, stubs={f"build_vtoe{dim}": vtoe}, loops=inv, cgal=cg)
        r = u.fn(name)(p, t, le, re, rank)
        X.reached(c, "table")
        if len(built) != 1:
            raise Unsupported("the vertex-to-element map is built differently")
        b, a = counts(nv)
        X.oblige(c, "one row per vertex and a header", shape_is(r, nv + 1, dim + 1))
        X.oblige(c, "number of points for the rank below", ex(r.at(0, 0)) == z3.ToReal(b))
        X.oblige(c, "number of points for the rank above", ex(r.at(0, 1)) == z3.ToReal(a))
        m = g.M(q.e)
        X.oblige(c, "the rows of the points for the rank below come first", Imp(m == 0, And(place(q) >= 1, place(q) <= b)))
        X.oblige(c, "then those for the rank above", Imp(m == 1, And(place(q) > b, place(q) <= b + a)))
        X.oblige(c, "a marked vertex has a row: its coordinates and its index", Imp(m != -1, And(
            *[ex(r.at(S(place(q)), d)) == ex(p.at(q, d)) for d in range(dim)],
            ex(r.at(S(place(q)), dim)) == z3.ToReal(q.e))))
        for x, v, nm in zip((p, t, le, re), vs, ("the vertices", "the elements", "the boxes", "the boxes")):
            unmodified(X, c, nm, (x, v))
    return H(f"cxx:{name}", [f"cpputils.cpp:{name}", f"cpputils.cpp:c_{name}"], run, budget=400)


def vtoe(dim):
    """the vertex-to-element map: a row lists exactly the elements of its vertex, in order, one entry per occurrence"""
    name = f"build_vtoe{dim}"

    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        vs = [x.buf.version for x in (p, t)]
        q, e0 = idx(c, nv, "q"), idx(c, nt, "e")
        k = S(c.fresh("k", I))
        c.assume(k.e >= 0)
        L = c.fresh_fn("entries", I, I)

        def has(e, v):
            return [ex(t.at(e, j)) == v.e for j in range(dim + 1)]

        def step(i):
            if c.once(("entries", ex(i))):
                c.fact(z3.Implies(ex(i) >= 0, L(ex(i) + 1) == L(ex(i)) + z3.Sum([z3.If(h, 1, 0) for h in has(S(ex(i)), q)])))
        c.fact(L(z3.IntVal(0)) == 0)
        step(e0)

        def content(m, i):
            """rows after the first i elements"""
            n = ex(m.ln(q))
            at = lambda j: ex(m.rd(q, S(j)))
            kk = at(k.e)
            c.note(nt, kk)
            return [("the length of a row", And(n == L(ex(i)), n >= 0)),
                    ("an entry is an element of the vertex",
                     Imp(k.e < n, And(kk >= 0, kk < ex(i), z3.Or(*has(S(kk), q))))),
                    ("an element of the vertex is in its row", Imp(And(e0.e < ex(i), z3.Or(*has(e0, q))), And(
                        L(e0.e) >= 0, L(e0.e) < n, at(L(e0.e)) == e0.e)))]
        role = {}

        def which(ident, env):
            v = [x for x in env if isinstance(env.get(x), cxx.Nested)]
            if len(v) != 1 or not ident[1].endswith(name):
                return False
            role["m"] = v[0]
            return True

        def havoc(c, env, i):
            step(S(ex(i)))
            ln, rd = c.fresh_fn("len", I, I), c.fresh_fn("row", I, I, I)
            return {role["m"]: cxx.Nested(env[role["m"]].n, "std::vector<int>", lambda v: S(ln(ex(v))),
                                          lambda v, j: S(rd(ex(v), ex(j))))}

        def holds(c, env, i):
            m = env[role["m"]]
            return [("a row per vertex", ex(m.n) == nv.e)] + content(m, i)
        u = cxx.Unit(CPP, loops=[Inv("elements", which, havoc, holds)])
        r = u.fn(name)(p, t)
        X.reached(c, "map")
        if not isinstance(r, cxx.Nested):
            raise Unsupported("another representation of the map")
        X.oblige(c, "a row for every vertex", ex(r.n) >= nv.e)
        for nm, f in content(r, nt):
            X.oblige(c, nm, f)
        unmodified(X, c, "the vertices", (p, vs[0]))
        unmodified(X, c, "the elements", (t, vs[1]))
    return H(f"cxx:{name}", [f"cpputils.cpp:{name}"], run)


def harnesses():
    return [vtoe(2), vtoe(3), where_to(2), where_to(3)]
