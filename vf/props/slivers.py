"""the loop of sliver_removal against the contracts of its callees"""
from ..hlp import *
from ..loops import Inv
from .. import symnp, logic
from ..logic import Unsupported
from .field import Field
from .genmesh import Comm


class Run:
    def __init__(self, c, X, opts=None):
        self.c, self.X = c, X
        self.fd, self.fh, self.h0 = Field(c, 3, "fd"), Field(c, 3, "fh"), rv(c, "h0")
        self.max_iter = iv(c, "max_iter")
        self.P0 = arr(c, "P0", (iv(c, "n0", 1), 3))
        self.opts = dict(max_iter=self.max_iter, verbose=0, comm=Comm())
        self.opts.update(opts or {})
        self.bbox = tuple(rv(c, f"b{k}") for k in range(6))
        self.domain, self.size = object(), object()
        self.n = 0          # triangulations read so far
        self.ev = {}
        self.D = None       # vertices held by the triangulation
        self.tri = None

    def unpack_domain(self, domain, opts):
        if domain is not self.domain:
            raise Unsupported("another domain")
        return self.fd, self.bbox, None

    def unpack_sizing(self, size):
        if size is not self.size:
            raise Unsupported("another size argument")
        return self.fh, None, self.h0, True

    def dt(self):
        run = self

        class DT:
            def insert(self, pts):
                if run.D is not None:
                    raise Unsupported("several insertions")
                run.D = run.P0.copy()
                X, c = run.X, run.c
                alike(X, c, pts, symnp.ravel(run.P0), "the given points are triangulated")

            def move(self, ix, pts):
                run.ev.setdefault("move", []).append((symnp.asarray(ix).copy(), symnp.asarray(pts).copy()))

            def get_finite_vertices(self):
                return run.topology()[0]

            def get_finite_cells(self):
                return run.topology()[1]
        return DT

    def topology(self, dt=None):
        if self.tri is None:
            p, t, nv, nt = mesh(self.c, 3, "t", nv_min=1)
            self.tri = (p, t)
            self.tp, self.tt = p.copy(), t.copy()
            self.n = symnp.norm_dim(self.n + 1)
        return self.tri

    def filt(self, p, t, fd, geps):
        T = arr(self.c, "kept", (iv(self.c, "nkept", 0), 4), "i")
        nv = p.shape[0]
        self.c.assume_all([T.shape[0], 4], lambda e, k: z3.And(ex(T.at(e, k)) >= 0, ex(T.at(e, k)) < ex(nv)))
        self.ev.setdefault("filter", []).append(dict(p=p.copy(), t=t.copy(), fd=fd, tol=geps, out=T.copy()))
        return T

    def angles(self, p, t, lo, hi):
        c = self.c
        n = iv(c, "nbad", 0)
        bad = arr(c, "bad", (n,), "i")
        nt = t.shape[0]
        c.assume_all([n], lambda k: z3.And(ex(bad.at(k)) >= 0, ex(bad.at(k)) < ex(nt)))
        self.ev.setdefault("angles", []).append(dict(p=p.copy(), t=t.copy(), lo=lo, hi=hi, out=bad.copy()))
        return bad, arr(c, "ix", (n,), "i")

    def grad(self, *pts):
        return arr(self.c, "grad", (pts[0].shape[0], 3))

    def dist(self, a, b):
        c = self.c
        a, b = a.copy(), b.copy()
        d = arr(c, "dist", (a.shape[0],))
        self.ev.setdefault("dist", []).append((a, b, d))

        def fact(i):
            same = z3.And(*[ex(a.at(i, k)) == ex(b.at(i, k)) for k in range(3)])
            return z3.And(ex(d.at(i)) >= 0, (ex(d.at(i)) == 0) == same)
        c.assume_all([a.shape[0]], fact)
        return d

    def improve(self, p, t, fd, deps, tol):
        raise Unsupported("boundary projection")

    def term(self, p, t, opts, comm, sliver=False, verbose=1):
        q, s, nv, nt = mesh(self.c, 3, "f", nv_min=1)
        self.ev.setdefault("termination", []).append(dict(p=p.copy(), t=t.copy(), out=(q, s), sliver=sliver))
        return q, s

    def fix(self, p, t, ptol=2e-13, dim=2, delete_unused=False):
        q, s, nv, nt = mesh(self.c, 3, "x", nv_min=1)
        self.ev.setdefault("fix", []).append(dict(p=p.copy(), t=t.copy(), out=(q.copy(), s.copy())))
        return q, s, arr(self.c, "jx", (nv,), "i")

    def go(self, on_iteration=None):
        c, run = self.c, self

        def havoc(c, env, i):
            n = iv(c, "n", 1)
            run.n, run.ev, run.tri = i, {}, None
            run.D = arr(c, "D", (n, 3))
            run.P = arr(c, "P", (n, 3))
            new = {"count": S(c.fresh("count", I)), "p": run.P.copy(), "pold": run.D.copy(), "t": None,
                   "step": rv(c, "step"), "num_old_bad": rv(c, "num_old_bad"), "N": n}
            return {k: v for k, v in new.items() if k in env or k == "t"}

        def holds(c, env, i):
            if run.ev.get("angles") and on_iteration is not None:
                on_iteration(run, env)
            return [("the counter counts the triangulations", ex(env["count"]) == ex(run.n)),
                    ("one triangulation per iteration", ex(run.n) == ex(i)),
                    ("the counter stays below the limit",
                     And(ex(env["count"]) >= 0, ex(env["count"]) <= ex(run.max_iter) - 1))]
        inv = [Inv("sliver removal", lambda i, e: i[1] == "sliver_removal" and e.get("count") is not None, havoc, holds)]
        st = {"_unpack_domain": self.unpack_domain, "_unpack_sizing": self.unpack_sizing,
              "_select_cgal_dim": lambda d: self.dt(), "_remove_triangles_outside": self.filt,
              "_calc_dihedral_angles": self.angles, "_dist": self.dist, "_termination": self.term,
              "_improve_level_set_newton": self.improve, "_get_topology": self.topology}
        st = {f"{GEN}:{k}": v for k, v in st.items()}
        st[f"{GEO}:fix_mesh"] = self.fix
        w = world(stubs=st, loops=inv, _fast_geometry=shims.fast_geometry(calc_circumsphere_grad=self.grad))
        return w.fn(GEN, "sliver_removal")(self.P0, self.domain, self.size, **self.opts)


COVERED = [f"{GEN}:sliver_removal"]
