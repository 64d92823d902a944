"""the meshing loop of generate_mesh against the contracts of its callees (serial)"""
from ..hlp import *
from ..loops import Inv
from .. import symnp, shims, logic
from ..logic import Unsupported
from .field import Field


class Comm:
    """communicator of a single process"""
    rank, size = 0, 1

    def bcast(self, x, root=0):
        return x

    def Get_rank(self):
        return 0

    def Get_size(self):
        return 1

    def allreduce(self, x, op=None):
        return x


class Run:
    """one symbolic execution of generate_mesh"""

    def __init__(self, c, X, dim, pfix=False, corners=False, subdomains=0, verbose=0, hmin=True, opts=None, comm=None):
        self.c, self.X, self.dim = c, X, dim
        self.ev = {}
        self.n = 0                       # triangulations so far (ghost)
        self.fd, self.fh, self.h0 = Field(c, dim, "fd"), Field(c, dim, "fh"), rv(c, "h0")
        self.max_iter = iv(c, "max_iter")
        self.sub = [Field(c, dim, f"sub{k}") for k in range(subdomains)]
        self.pf = arr(c, "pfix", (iv(c, "nfix", 1), dim)) if pfix else symnp.zeros((0, dim))
        self.corners = arr(c, "corners", (iv(c, "ncorner", 1), dim)) if corners else None
        self.P0 = arr(c, "P0", (iv(c, "n0", 1), dim))
        self.comm = comm or Comm()
        self.kw = dict(max_iter=self.max_iter, verbose=verbose, comm=self.comm)
        self.kw.update(opts or {})
        self.bbox = tuple(rv(c, f"b{k}") for k in range(2 * dim))
        if not hmin:
            self.kw["h0"] = self.h0
        self.hmin = self.h0 if hmin else None
        if subdomains:
            self.kw["subdomains"] = list(self.sub)
        self.domain, self.size = object(), object()
        self.tri = []

    # stubs
    def unpack_domain(self, domain, opts):
        if domain is self.domain:
            return self.fd, self.bbox, self.corners
        if isinstance(domain, Field):
            return domain, None, None
        raise Unsupported("another domain")

    def unpack_sizing(self, size):
        if size is not self.size:
            raise Unsupported("another size argument")
        return self.fh, None, self.hmin, True

    def dt(self):
        run = self

        class DT:
            def __init__(self):
                self.points = None

            def insert(self, pts):
                if self.points is not None:
                    raise Unsupported("several insertions in one step")
                self.points = pts
                run.n = symnp.norm_dim(run.n + 1)
                run.inserted = pts

            def get_finite_vertices(self):
                return run.topology()[0]

            def get_finite_cells(self):
                return run.topology()[1]
        return DT

    def topology(self, dt=None):
        if not self.tri or self.tri[-1][0] is not self.n:
            p, t, nv, nt = mesh(self.c, self.dim, "t", nv_min=1)
            self.tri.append((self.n, p, t))
            self.tp, self.tt = p.copy(), t.copy()
        return self.tri[-1][1:3]

    def closest(self, node, nodes):
        self.ev.setdefault("closest", []).append((node, nodes))
        c = self.c
        f = self.__dict__.setdefault("near", c.fresh_fn("nearest", *([R] * self.dim), I))
        node = symnp.asarray(node)
        x = [ex(logic.real(node[d])) for d in range(self.dim)]
        k = f(*x)
        n = nodes.shape[0]
        c.fact(z3.And(k >= 0, k < ex(n)))
        c.note(n, k)
        return S(k)

    def filt(self, p, t, fd, geps):
        m = iv(self.c, "nkept", 0)
        T = arr(self.c, "kept", (m, self.dim + 1), "i")
        nv = p.shape[0]
        self.c.assume_all([m, self.dim + 1], lambda e, k: z3.And(ex(T.at(e, k)) >= 0, ex(T.at(e, k)) < ex(nv)))
        self.ev.setdefault("filter", []).append(dict(p=p.copy(), t=t.copy(), fd=fd, tol=geps, out=T))
        return T

    def forces(self, p, t, fh, h0, L0mult):
        F = arr(self.c, "F", (p.shape[0], self.dim))
        self.ev.setdefault("forces", []).append(dict(p=p.copy(), t=t.copy(), fh=fh, h0=h0, L0mult=L0mult, out=F.copy()))
        return F

    def proj(self, p, fd, deps, hmin, idx):
        q = arr(self.c, "proj", p.shape)
        self.ev.setdefault("project", []).append(dict(p=p.copy(), fd=fd, hmin=hmin, idx=idx, deps=deps, out=q.copy()))
        return q

    def term(self, p, t, opts, comm, sliver=False, verbose=1):
        q, s, nv, nt = mesh(self.c, self.dim, "f", nv_min=1)
        self.ev.setdefault("termination", []).append(dict(p=p.copy(), t=t.copy(), out=(q.copy(), s.copy()), sliver=sliver, opts=opts))
        return q, s

    def improve(self, p, t, fd, deps, tol):
        q = arr(self.c, "improved", p.shape)
        self.ev.setdefault("improve", []).append(dict(p=p.copy(), t=t.copy(), fd=fd, out=q.copy()))
        return q

    def init(self, dim, geps, bbox, fh, fd, h0, opts, pfix, comm, lsf):
        self.ev.setdefault("init", []).append(dict(fh=fh, fd=fd, h0=h0, pfix=pfix, geps=geps, bbox=bbox))
        return fh, self.P0, self.extents
    extents = ()

    def ghosts(self, p, t, dt, extents, comm):
        """contract of _add_ghost_vertices: the ghosts come after the local vertices"""
        c = self.c
        X, d = self.X, self.dim
        X.oblige(c, "ghosts are added within the extents of the ranks", extents is self.extents)
        q, s, nv, nt = mesh(c, d, "g", nv_min=1)
        g = iv(c, "nghosts", 0)
        c.assume(g.e == nv.e - ex(p.shape[0]))
        self.ev.setdefault("ghosts", []).append(dict(p=p.copy(), t=t.copy(), out=(q.copy(), s.copy()), count=g))
        return q, s, symnp.arange(nv), g

    def unpack_pfix(self, dim, opts, comm):
        return self.pf, self.pf.shape[0]

    def go(self, on_iteration=None):
        c = self.c
        run = self

        def havoc(c, env, i):
            run.n = i
            run.ev = {k: v for k, v in run.ev.items() if k in ("init",)}
            run.tri = []
            n = iv(c, "n", 1)
            return {"count": S(c.fresh("count", I)), "p": arr(c, "P", (n, run.dim)), "N": n}

        def holds(c, env, i):
            if run.ev.get("forces") and on_iteration is not None:
                on_iteration(run, env)
            out = [("the counter counts the triangulations", ex(env["count"]) == ex(run.n)),
                   ("the counter stays below the limit",
                    And(ex(env["count"]) >= 0, ex(env["count"]) <= ex(run.max_iter) - 1))]
            if run.n is not i and not (symnp.is_num(i) and i == 0):
                out.append(("one triangulation per iteration", ex(run.n) == ex(i)))
            return out
        inv = [Inv("meshing", lambda i, e: i[1] == "generate_mesh" and "count" in e and e.get("count") is not None
                   and i[2] == self.main, havoc, holds)]
        st = {"_unpack_domain": self.unpack_domain, "_unpack_sizing": self.unpack_sizing,
              "_initialize_points": self.init, "_select_cgal_dim": lambda d: self.dt(),
              "_closest_node": self.closest, "_remove_triangles_outside": self.filt,
              "_compute_forces": self.forces, "_project_points_back_newton": self.proj, "_termination": self.term,
              "_improve_level_set_newton": self.improve, "_unpack_pfix": self.unpack_pfix,
              "_get_topology": self.topology, "_add_ghost_vertices": self.ghosts}
        w = world(stubs={f"{GEN}:{k}": v for k, v in st.items()}, loops=inv)
        return w.fn(GEN, "generate_mesh")(self.domain, self.size, **self.kw)
    main = 1


COVERED = [f"{GEN}:generate_mesh"]
