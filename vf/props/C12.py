"""C12 size criteria"""
from ..hlp import *
from ..run import H
from .. import symnp, logic
from ..logic import Unsupported
from .sizing import Sizing, COVERED
from .C16 import Unknown, rejects


def cond(f):
    return S(f if z3.is_expr(f) else z3.BoolVal(bool(f)))

ASSUMPTIONS = ["velocities are at least 1e-3 (water positions: C15)",
               "scipy's uniform_filter is the local mean (arbitrary values here)"]


def holds(c, f):
    """whether f holds (the path decides it, otherwise both cases are explored)"""
    if c.implied(f):
        return True
    if c.implied(z3.Not(f)):
        return False
    return c.decide(f)


def grid(dim, wl, grad, dt):
    """sizes at an arbitrary grid point for the given criteria"""
    def run(c, X):
        o = {k: rv(c, k) for k in ("hmin", "hmax", "freq", "cr_max")}
        so = o["space_order"] = rv(c, "space_order")
        if wl:
            o["wl"] = rv(c, "wl")
        else:
            del o["freq"]
        if grad:
            o["grad"] = rv(c, "grad")
            o["stencil_size"] = tuple(iv(c, f"st{d}", 1) for d in range(dim)) if grad == 2 else iv(c, "st", 1)
        if dt:
            o["dt"] = rv(c, "dt")
        c.assume(And(o["hmin"].e > 0, o["hmax"].e >= o["hmin"].e))
        g = Sizing(c, X, dim, opts=o)
        zero = z3.RealVal(0)
        wl_, gr_, dt_, cr_ = [ex(o[k]) if k in o else zero for k in ("wl", "grad", "dt", "cr_max")]
        active = z3.And(cr_ != 0, dt_ != 0, so.e != 0)
        invalid = z3.Or(wl_ < 0, gr_ < 0, z3.And(active, z3.Or(cr_ < 0, dt_ < 0, so.e < 1)))
        if wl:
            invalid = z3.Or(invalid, z3.And(wl_ != 0, o["freq"].e < 0))
            c.assume(o["freq"].e != 0)
        try:
            r = g.go()
        except ValueError:
            X.reached(c, "rejected")
            X.oblige(c, "only invalid parameters are rejected", invalid)
            return
        X.reached(c, "size function")
        X.oblige(c, "invalid parameters are rejected", z3.Not(invalid))
        h = g.values()
        X.oblige(c, "one size per grid point", shape_is(h, *g.shape))
        X.oblige(c, "the velocity model is not modified", g.v.buf.version == 0)
        ix = [idx(c, n, "i") for n in g.shape]
        v = g.v0.at(*ix)
        crit = []
        if wl:
            crit.append((wl_ != 0, v / (o["freq"] * o["wl"])))
        if grad and g.filters:
            f = g.filters
            if len(f) != 2:
                raise Unsupported("the variance is computed differently")
            alike(X, c, f[0][0], g.v0, "the mean of the velocity")
            alike(X, c, f[1][0], g.v0 * g.v0, "the mean of the squared velocity")
            for _, s, _ in f:
                want = list(o["stencil_size"]) if grad == 2 else [o["stencil_size"]] * dim
                got = list(s) if isinstance(s, (tuple, list)) else [s] * dim
                X.oblige(c, "the stencil requested", len(got) == dim and And(*[ex(a) == ex(b) for a, b in zip(got, want)]))
            var = f[1][2] - f[0][2] * f[0][2]
            top, low = symnp.amax(var), symnp.amin(var)
            pos = ex(top) > 0
            here = var.at(*ix)
            dev = logic.ite(cond(pos), (here - low) / logic.ite(cond(pos), top, 1.0), here - low)
            crit.append((gr_ != 0, o["grad"] / (dev + 0.10)))
        hmin, hmax = o["hmin"], o["hmax"]
        crit = [v for on, v in crit if on is True or holds(c, on)]
        got = h.at(*ix)
        # sizes before the Courant condition
        base = hmin
        for k, val in enumerate(crit):
            base = val if k == 0 else logic.smin(base, val)
        clip = logic.smin(logic.smax(base, hmin), hmax)
        want = clip
        if dt and holds(c, active):
            cfl = v * o["dt"] * so
            want = logic.ite(cond(ex(cfl) > ex(o["cr_max"] * clip)), cfl / o["cr_max"], clip)
            X.oblige(c, "the Courant number stays below its cap", ex(cfl) <= ex(o["cr_max"] * got))
        X.oblige(c, "the size of a grid point", ex(got) == ex(want))
        if isinstance(r, object):
            X.oblige(c, "the minimum edge length of the size function", ex(r.hmin) == hmin.e)
            X.oblige(c, "the box is unchanged without padding",
                     And(*[ex(a) == ex(b) for a, b in zip(r.bbox, g.bbox)]) if len(r.bbox) == 2 * dim else False)
    return H(f"size criteria dim={dim} wavelength={wl} gradient={grad} courant={dt}", COVERED, run, timeout=60)


def rejected(opt=None, box=None):
    """unknown options and other boxes are rejected"""
    def run(c, X):
        g = Sizing(c, X, 2, opts={Unknown(opt): 1} if opt is not None else None)
        if box is not None:
            g.bbox = tuple(rv(c, "b") for _ in range(box))
        X.reached(c, "call")
        what = "an unknown option is rejected" if opt is not None else "a box of another dimension is rejected"
        X.oblige(c, what, rejects(g.go, ValueError))
    return H(f"rejected option={opt!r} box={box}", COVERED[:1], run)


def harnesses():
    return [grid(2, False, False, False), grid(2, True, False, False), grid(2, False, 1, False), grid(2, True, 2, False),
            grid(2, False, False, True), grid(2, True, 1, True), grid(3, True, False, False), grid(3, False, 1, False),
            grid(3, False, False, False), grid(3, False, False, True), rejected(opt="hMin"), rejected(opt=""),
            rejected(box=0), rejected(box=2), rejected(box=5), rejected(box=8)]
