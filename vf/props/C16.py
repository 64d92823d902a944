"""C16 iteration limits and rejected arguments"""
from ..hlp import *
from ..run import H
from ..logic import Unsupported
from .. import symnp
from . import genmesh, slivers
from .field import Field

ASSUMPTIONS = ["the callees terminate",
               "the code's own convergence check (movement below 1000 h0 per step) does not give up"]


def limit(dim, **kw):
    """terminates after exactly the requested number of triangulations; bad limits and sizes are rejected"""
    def run(c, X):
        g = genmesh.Run(c, X, dim, **kw)
        try:
            r = g.go()
        except ValueError:
            X.reached(c, "rejected")
            X.oblige(c, "only a non-positive limit or minimum edge length is rejected",
                     Or(g.max_iter.e <= 0, ex(g.h0) <= 0))
            X.oblige(c, "nothing was triangulated", ex(g.n) == 0)
            return
        except AssertionError:
            X.oblige(c, "a non-positive limit is rejected", g.max_iter.e > 0)
            X.oblige(c, "a non-positive minimum edge length is rejected", ex(g.h0) > 0)
            return      # the code's own convergence check gave up
        X.reached(c, "mesh")
        X.oblige(c, "a non-positive limit is rejected", g.max_iter.e > 0)
        X.oblige(c, "a non-positive minimum edge length is rejected", ex(g.h0) > 0)
        X.oblige(c, "exactly the requested number of triangulations", ex(g.n) == g.max_iter.e)
        X.oblige(c, "a mesh is returned", isinstance(r, tuple) and len(r) == 2 and g.ev.get("termination") is not None)
    nm = " ".join(f"{k}={v}" for k, v in kw.items())
    return H(f"generate_mesh dim={dim} {nm}", genmesh.COVERED, run)


def sliver_limit(**kw):
    def run(c, X):
        g = slivers.Run(c, X, kw)
        try:
            r = g.go()
        except ValueError:
            X.reached(c, "rejected")
            X.oblige(c, "only a non-positive limit or minimum edge length is rejected",
                     Or(g.max_iter.e <= 0, ex(g.h0) <= 0))
            X.oblige(c, "nothing was triangulated", ex(g.n) == 0)
            return
        X.reached(c, "mesh")
        X.oblige(c, "a non-positive limit is rejected", g.max_iter.e > 0)
        X.oblige(c, "a non-positive minimum edge length is rejected", ex(g.h0) > 0)
        X.oblige(c, "at most the requested number of triangulations", ex(g.n) <= g.max_iter.e)
        X.oblige(c, "a mesh is returned", isinstance(r, tuple) and len(r) == 2 and
                 (g.ev.get("termination") is not None or g.ev.get("fix") is not None))
    return H("sliver_removal " + " ".join(f"{k}={v}" for k, v in kw.items()), slivers.COVERED, run)


DOC_GEN = ("h0", "bbox", "verbose", "max_iter", "seed", "perform_checks", "pfix", "axis", "delta_t", "geps_mult",
           "mesh_improvement", "r0m_is_h0", "subdomains", "points")
DOC_SLIVER = ("h0", "verbose", "max_iter", "perform_checks", "pfix", "axis", "min_dh_angle_bound",
              "max_dh_angle_bound", "geps_mult", "gamma", "preserve")


class Unknown(str):
    """an option that equals none of the names in the source"""
    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __hash__(self):
        return str.__hash__(self)


def rejects(f, *errors):
    try:
        f()
    except errors:
        return True
    return False


def options():
    def run(c, X):
        w = world()
        parse = w.fn(GEN, "_parse_kwargs")
        X.reached(c, "options")
        for k in DOC_GEN + DOC_SLIVER:
            X.oblige(c, f"the documented option {k} is accepted", not rejects(lambda: parse({k: rv(c, "v")}), ValueError))
        for u in ("maxiter", "Verbose", "", "h0 ", "domains", "p", "seed_"):
            for v in (1, None, False, True, 0, 0.0, -1, "", "x", (), [], {}, object(), rv(c, "value"), iv(c, "count"),
                      arr(c, "values", (iv(c, "nvalues", 0),))):
              for d in ({Unknown(u): v}, {"h0": 1.0, Unknown(u): v}, {Unknown(u): v, "verbose": 0}):
                X.oblige(c, "an unknown option is rejected", rejects(lambda: parse(d), ValueError))
    return H("_parse_kwargs", [f"{GEN}:_parse_kwargs"], run)


def unknown_option(sliver):
    def run(c, X):
        u = Unknown("zzz")
        g = slivers.Run(c, X, {u: 1}) if sliver else genmesh.Run(c, X, 2, opts={u: 1})
        X.reached(c, "call")
        X.oblige(c, "an unknown option is rejected", rejects(g.go, ValueError))
        X.oblige(c, "nothing was triangulated", ex(g.n) == 0)
    return H(("sliver_removal" if sliver else "generate_mesh") + " unknown option",
             slivers.COVERED if sliver else genmesh.COVERED, run)


def arguments():
    """domain and size arguments: accepted forms are unpacked, everything else is rejected"""
    def run(c, X):
        w = world()
        dom, siz = w.fn(GEN, "_unpack_domain"), w.fn(GEN, "_unpack_sizing")
        X.reached(c, "arguments")
        for bad in (object(), None, [1.0, 2.0], {}, b"x", "text"):
            if not isinstance(bad, (str, bytes)):
                X.oblige(c, "an invalid size argument is rejected", rejects(lambda: siz(bad), ValueError))
            X.oblige(c, "an invalid domain is rejected", rejects(lambda: dom(bad, {"bbox": (0.0, 1.0, 0.0, 1.0)}), ValueError))
        f = Field(c, 2)
        bb = tuple(rv(c, f"b{k}") for k in range(4))
        fd, b, corners = dom(f, {"bbox": bb})
        X.oblige(c, "a callable domain is used as it is", fd is f and b is bb and corners is None)
        X.oblige(c, "a callable domain needs a box", rejects(lambda: dom(f, {}), KeyError, ValueError))
        fh, b, hmin, lsf = siz(f)
        X.oblige(c, "a callable size is used as it is", fh is f and b is None and hmin is None)
        h = rv(c, "h")
        fh, b, hmin, lsf = siz(h)
        X.oblige(c, "a scalar size is the minimum edge length", ex(hmin) == h.e and b is None)
        q = arr(c, "q", (iv(c, "n", 0), 2))
        r = symnp.asarray(fh(q))
        i = idx(c, q.shape[0])
        X.oblige(c, "a scalar size is the same everywhere", And(shape_is(r, q.shape[0]), ex(r.at(i)) == h.e))
    return H("arguments", [f"{GEN}:_unpack_domain", f"{GEN}:_unpack_sizing"], run)


def harnesses():
    return [limit(2), limit(3), limit(2, hmin=False), limit(2, pfix=True, subdomains=1), limit(2, corners=True),
            limit(2, verbose=1), limit(2, verbose=2), sliver_limit(), sliver_limit(verbose=2), options(),
            unknown_option(False), unknown_option(True), arguments()]
