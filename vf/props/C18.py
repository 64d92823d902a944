"""C18 elements inside the domain, projection onto the boundary"""
from ..hlp import *
from ..run import H
from ..loops import Inv
from .. import symnp, shims
from ..logic import Unsupported
from .C23 import exactly, row, same
from . import genmesh
from .field import Field

ASSUMPTIONS = ["the signed distance function is an arbitrary function of the point (row by row)"]


def filt(dim):
    def run(c, X):
        p, t, nv, nt = mesh(c, dim)
        fd, geps = Field(c, dim), rv(c, "geps")
        w = world()
        v0, v1 = p.buf.version, t.buf.version
        r = w.fn(GEN, "_remove_triangles_outside")(p, t, fd, geps)

        def inside(e):
            mid = [sum((p.at(t.at(S(ex(e)), k), d) for k in range(1, dim + 1)), p.at(t.at(S(ex(e)), 0), d)) / (dim + 1)
                   for d in range(dim)]
            return fd.at(mid) < -geps.e
        exactly(c, X, r, t, nt, inside, "filter")
        unmodified(X, c, "the mesh", (p, v0), (t, v1))
    return H(f"_remove_triangles_outside dim={dim}", [f"{GEN}:_remove_triangles_outside"], run)


def project(dim, idx_):
    def run(c, X):
        n = iv(c, "n", 0)
        p = arr(c, "P", (n, dim))
        old = p.snap()
        fd, deps, hmin = Field(c, dim), rv(c, "deps"), rv(c, "hmin")
        c.assume(And(deps.e > 0, hmin.e > 0))
        w = world()
        r = w.fn(GEN, "_project_points_back_newton")(p, fd, deps, hmin, idx_)
        i = idx(c, n, "i")
        x = [old(i, d) for d in range(dim)]
        d0 = fd.at(x)
        band = d0 > 0 if idx_ == 0 else And(d0 > 0, d0 < hmin.e * 2 / 3)
        X.oblige(c, "one row per vertex", shape_is(r, n, dim))
        X.reached(c, "vertex")
        X.oblige(c, "vertices outside the band stay where they are",
                 Imp(Not(band), And(*[ex(r[i, d]) == ex(x[d]) for d in range(dim)])), rounds=3)
    return H(f"_project_points_back_newton dim={dim} level={idx_}", [f"{GEN}:_project_points_back_newton"], run)


def same_field(X, c, dim, f, g, what):
    """f evaluates like the field g at any point"""
    q = arr(c, "Q", (1, dim))
    r = symnp.asarray(f(q))
    X.oblige(c, what, ex(r[0]) == g.at([q.at(0, d) for d in range(dim)]))


def final(dim, **kw):
    def run(c, X):
        g = genmesh.Run(c, X, dim, **kw)
        c.assume(g.h0.e > 0)
        mult = rv(c, "geps_mult")
        g.kw["geps_mult"] = mult
        try:
            r = g.go()
        except (ValueError, AssertionError):
            return      # rejected or given up: C16
        ev = g.ev
        if len(ev.get("filter", [])) != 2 or len(ev.get("termination", [])) != 1 or len(ev.get("improve", [])) != 1:
            raise Unsupported("the final steps are organised differently")
        P, T = r
        tp, tt = g.topology()
        f1, f2, te, im = ev["filter"][0], ev["filter"][1], ev["termination"][0], ev["improve"][0]
        nv, nt = tp.shape[0], tt.shape[0]
        X.reached(c, "mesh")
        alike(X, c, f1["p"], tp, "the filter of the last step sees the vertices of the triangulation")
        alike(X, c, f1["t"], tt, "the filter of the last step sees the elements of the triangulation")
        X.oblige(c, "the filter of the last step uses the stated tolerance", ex(f1["tol"]) == ex(mult) * ex(g.h0))
        same_field(X, c, dim, f1["fd"], g.fd, "the filter of the last step uses the domain")
        alike(X, c, te["p"], tp, "finishing gets the vertices of the triangulation")
        alike(X, c, te["t"], f1["out"], "finishing gets the elements kept by the filter")
        alike(X, c, im["t"], te["out"][1], "smoothing of the boundary keeps the elements")
        alike(X, c, P, im["out"], "the smoothed vertices are returned")
        alike(X, c, f2["p"], P, "the final filter sees the returned vertices")
        alike(X, c, f2["t"], te["out"][1], "the final filter sees the finished elements")
        X.oblige(c, "the final tolerance is positive", Imp(ex(g.h0) > 0, ex(f2["tol"]) >= 0))
        same_field(X, c, dim, f2["fd"], g.fd, "the final filter uses the domain")
        alike(X, c, T, f2["out"], "exactly the elements kept by the final filter are returned")
    nm = " ".join(f"{k}={v}" for k, v in kw.items())
    return H(f"generate_mesh final step dim={dim} {nm}", genmesh.COVERED, run)


def levels(dim, k):
    def run(c, X):
        g = genmesh.Run(c, X, dim, subdomains=k)
        c.assume(g.h0.e > 0)

        def step(g, env):
            pr = g.ev.get("project", [])
            if len(pr) != k + 1:
                raise Unsupported("projection is organised differently")
            X.reached(c, "step")
            for m, (e, f) in enumerate(zip(pr, [g.fd] + g.sub)):
                X.oblige(c, f"level {m}: only level 0 is the domain", (e["idx"] == 0) is (m == 0))
                same_field(X, c, dim, e["fd"], f, f"level {m}: projection uses the level's own distance")
                X.oblige(c, f"level {m}: the band is that of the minimum edge length", ex(e["hmin"]) == ex(g.h0))
            alike(X, c, env["p"], pr[-1]["out"], "the projected vertices go to the next step")
        try:
            g.go(step)
        except (ValueError, AssertionError):
            return
    return H(f"generate_mesh projection dim={dim} subdomains={k}", genmesh.COVERED, run)


def harnesses():
    return ([filt(2), filt(3)] + [project(d, k) for d in (2, 3) for k in (0, 1)] + [final(2), final(3)]
            + [levels(2, 1), levels(3, 2), levels(2, 0)])
