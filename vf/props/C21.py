"""C21 sliver removal"""
import math

from ..hlp import *
from ..run import H
from .. import symnp, logic
from ..logic import Unsupported
from . import slivers
from .C18 import same_field

ASSUMPTIONS = ["the dihedral angles are those of C09's contract, mesh cleanup that of C07",
               "without the option `preserve` (which moves boundary vertices by design)"]


def locate():
    """_calc_dihedral_angles finds exactly the elements with an angle out of bounds"""
    def run(c, X):
        p, t, nv, nt = mesh(c, 3)
        lo, hi = rv(c, "lo"), rv(c, "hi")
        A = arr(c, "A", (nt * 6, 1))

        def angles(q, s):
            alike(X, c, q, p, "the angles are those of the vertices given")
            alike(X, c, s, t, "the angles are those of the elements given")
            return A.copy()
        w = world(_fast_geometry=shims.fast_geometry(calc_dihedral_angles=angles))
        r, ix = w.fn(GEN, "_calc_dihedral_angles")(p, t, lo, hi)

        def bad(e):
            return z3.Or(*[z3.Or(ex(A.at(S(ex(e)) * 6 + k, 0)) < lo.e, ex(A.at(S(ex(e)) * 6 + k, 0)) > hi.e)
                           for k in range(6)])
        n = r.shape[0]
        e, a, b = idx(c, nt, "e"), S(c.fresh("a", I)), S(c.fresh("b", I))
        c.note(n, a.e)
        c.note(n, b.e)
        X.reached(c, "element")
        X.oblige(c, "a list of element numbers", r.ndim == 1)
        ina = And(a.e >= 0, a.e < ex(n))
        inb = And(b.e >= 0, b.e < ex(n))
        for k in range(6):
            v = ex(A.at(e * 6 + k, 0))
            X.oblige(c, f"an element whose angle {k} is too small is found",
                     Imp(v < lo.e, Ex([n], lambda i: ex(r.at(S(ex(i)))) == e.e)), rounds=4)
            X.oblige(c, f"an element whose angle {k} is too large is found",
                     Imp(v > hi.e, Ex([n], lambda i: ex(r.at(S(ex(i)))) == e.e)), rounds=4)
        ra, rb = ex(r.at(a)), ex(r.at(b))
        X.oblige(c, "only existing elements are found", Imp(ina, And(ra >= 0, ra < ex(nt))), rounds=3)
        X.oblige(c, "only elements with an angle out of bounds are found", Imp(ina, bad(S(ra))), rounds=3)
        X.oblige(c, "every element is found once", Imp(And(ina, inb, ra == rb), a.e == b.e), rounds=3)
    return H("_calc_dihedral_angles", [f"{GEN}:_calc_dihedral_angles"], run)


def bounds(c, X, g, a, opts):
    lo, hi = opts.get("min_dh_angle_bound", 10.0), opts.get("max_dh_angle_bound")
    pi = logic.real(math.pi)
    dev = ex(logic.real(a["lo"])) * 180 - ex(logic.real(lo)) * ex(pi)
    X.oblige(c, "the lower bound is the requested one in radians", dev == 0 if isinstance(lo, S) else
             And(dev <= 1e-12, dev >= -1e-12))
    if hi is not None:
        X.oblige(c, "the upper bound is the requested one in radians", ex(a["hi"]) * 180 == ex(logic.real(hi)) * ex(pi))


def loop(defaults=False):
    def run(c, X):
        opts = {} if defaults else {"min_dh_angle_bound": rv(c, "min_bound"), "max_dh_angle_bound": rv(c, "max_bound"),
                "geps_mult": rv(c, "geps_mult"), "gamma": rv(c, "gamma")}
        g = slivers.Run(c, X, opts)

        def topology():
            if len(g.ev.get("angles", [])) != 1 or len(g.ev.get("filter", [])) != 1:
                raise Unsupported("the step is organised differently")
            a, f = g.ev["angles"][0], g.ev["filter"][0]
            alike(X, c, f["p"], g.tp, "the filter sees the vertices of the triangulation")
            alike(X, c, f["t"], g.tt, "the filter sees the elements of the triangulation")
            same_field(X, c, 3, f["fd"], g.fd, "the filter uses the domain")
            alike(X, c, a["p"], g.tp, "the angles are those of the vertices of the triangulation")
            alike(X, c, a["t"], f["out"], "the angles are those of the elements kept")
            bounds(c, X, g, a, opts)
            moved = g.ev.get("move", [])
            X.oblige(c, "after a perturbation the triangulation is updated", Or(bool(moved), ex(g.n) == 1))
            if moved:
                ix, pts = moved[0]
                n = ix.shape[0]
                X.oblige(c, "a single batch of moves", len(moved) == 1)
                X.oblige(c, "three coordinates per moved vertex", shape_is(pts, n * 3))
                v, m = S(c.fresh("v", I)), S(c.fresh("m", I))
                c.note(g.D.shape[0], v.e)
                c.note(n, m.e)
                diff = z3.Or(*[ex(g.P.at(v, d)) != ex(g.D.at(v, d)) for d in range(3)])
                X.oblige(c, "every perturbed vertex is moved in the triangulation",
                         Imp(And(v.e >= 0, v.e < ex(g.D.shape[0]), diff),
                             Ex([n], lambda i: ex(ix.at(S(ex(i)))) == v.e)), rounds=4)
                ok = And(m.e >= 0, m.e < ex(n))
                for d in range(3):
                    X.oblige(c, "vertices move to their perturbed position",
                             Imp(ok, ex(pts.at(m * 3 + d)) == ex(g.P.at(S(ex(ix.at(m))), d))), rounds=3)
                g.did_move = True
            return a

        def step(g, env):
            a = topology()
            bad, t, p = a["out"], a["t"], env["p"]
            n = g.tp.shape[0]
            v = S(c.fresh("v", I))
            c.note(n, v.e)
            X.reached(c, "step")
            X.oblige(c, "perturbation keeps the number of vertices", shape_is(p, n, 3))
            diff = z3.Or(*[ex(p.at(v, d)) != ex(g.tp.at(v, d)) for d in range(3)])
            ve = Ex([bad.shape[0]], lambda i: z3.Or(*[ex(t.at(S(ex(bad.at(S(ex(i))))), k)) == v.e for k in range(4)]))
            X.oblige(c, "only vertices of elements with an angle out of bounds are perturbed",
                     Imp(And(v.e >= 0, v.e < ex(n), diff), ve), rounds=4)
            alike(X, c, env["pold"], g.tp, "the vertices of the triangulation are remembered")
        try:
            r = g.go(step)
        except ValueError:
            return
        P, T = r
        a = topology()
        if g.ev.get("termination"):
            if g.ev.get("fix") or len(g.ev["termination"]) != 1:
                raise Unsupported("finished differently")
            te = g.ev["termination"][0]
            X.reached(c, "limit")
            X.oblige(c, "the limit was reached", ex(g.n) == g.max_iter.e)
            alike(X, c, te["p"], g.tp, "finishing gets the vertices of the triangulation")
            alike(X, c, te["t"], a["t"], "finishing gets the elements kept")
            alike(X, c, P, te["out"][0], "the finished vertices are returned")
            alike(X, c, T, te["out"][1], "the finished elements are returned")
            return
        if len(g.ev.get("fix", [])) != 1:
            raise Unsupported("finished differently")
        fx = g.ev["fix"][0]
        X.reached(c, "success")
        X.oblige(c, "success means that no element has an angle out of bounds", ex(a["out"].shape[0]) == 0)
        alike(X, c, fx["p"], g.tp, "cleanup gets the vertices whose angles are in bounds")
        alike(X, c, fx["t"], a["t"], "cleanup gets the elements whose angles are in bounds")
        alike(X, c, P, fx["out"][0], "the cleaned vertices are returned")
        alike(X, c, T, fx["out"][1], "the cleaned elements are returned")
    return H("sliver_removal" + (" default options" if defaults else ""), slivers.COVERED, run)


def harnesses():
    return [locate(), loop(), loop(True)]
