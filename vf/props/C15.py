"""C15 reading, converting and interpolating velocity models"""
import itertools

from ..hlp import *
from ..run import H
from ..loops import Inv
from ..pyload import Mod
from .. import symnp, logic
from ..logic import Unsupported
from .sizing import Sizing, COVERED as SIZING
from .C16 import rejects

ASSUMPTIONS = ["numpy.fromfile decodes the samples in file order with the byte order and precision of its dtype",
               "scipy's RegularGridInterpolator reproduces the values at the grid vectors it is given",
               "grid vectors in exact arithmetic (the code stores them as float32)"]


class File:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def reader(w, c, data, log, dims=3):
    """numpy and open as seen by the reading code"""
    def fromfile(f, dtype=float, **k):
        if k:
            raise Unsupported("fromfile options")
        log.append((getattr(f, "name", f), dtype))
        return data.copy()

    m = w.module(SIZ)

    class Np:
        def __getattr__(self, k):
            return fromfile if k == "fromfile" else getattr(symnp, k)
    m.__dict__["np"] = Np()
    m.__dict__["open"] = lambda name, mode="r", *a, **k: File(name)
    return m.__dict__["read_velocity_model"]


def position(order, sizes, at):
    """position in the file of the sample with index `at` (memory order C or F)"""
    ks = range(len(sizes)) if order == "C" else range(len(sizes) - 1, -1, -1)
    pos = None
    for k in ks:
        pos = at[k] if pos is None else pos * sizes[k] + at[k]
    return pos


def binary(axes, order, byte):
    def run(c, X):
        sh = [iv(c, k, 1) for k in ("nz", "nx", "ny")]
        data = arr(c, "samples", (symnp.norm_dim(sh[0] * sh[1] * sh[2]),))
        log = []
        w = world()
        fn = reader(w, c, data, log)
        r = fn(filename="model.bin", nz=sh[0], nx=sh[1], ny=sh[2], byte_order=byte, axes_order=axes,
               axes_order_sort=order, dtype="float32")
        if len(log) != 1:
            raise Unsupported("the file is read differently")
        name, dt = log[0]
        want = {"big": (">",), "little": ("<", "=", "|")}[byte]
        X.oblige(c, "the requested file is read", name == "model.bin")
        X.oblige(c, "the requested byte order", getattr(dt, "order", "=") in want)
        X.oblige(c, "the requested precision", getattr(dt, "name", dt) == "float32")
        V, nz, nx, ny = r
        X.oblige(c, "the sizes are returned", And(ex(nz) == sh[0].e, ex(nx) == sh[1].e, ex(ny) == sh[2].e))
        X.oblige(c, "depth, x, y", shape_is(V, *sh))
        at = [idx(c, n, "i") for n in sh]
        X.reached(c, "sample")
        phys = [sh[0] - 1 - at[0], at[1], at[2]]
        # axis axes[k] of the file is physical axis k
        fsz, fat = [None] * 3, [None] * 3
        for k in range(3):
            fsz[axes[k]], fat[axes[k]] = sh[k], phys[k]
        X.oblige(c, "every sample is kept at its place", ex(V.at(*at)) == ex(data.at(symnp.norm_index(position(order, fsz, fat)))))
    return H(f"binary model axes={axes} sort={order} {byte}",
             [f"{SIZ}:read_velocity_model", f"{SIZ}:_read_bin"], run)


def refuse():
    def run(c, X):
        sh = dict(nz=iv(c, "nz", 1), nx=iv(c, "nx", 1), ny=iv(c, "ny", 1))
        data = arr(c, "samples", (symnp.norm_dim(sh["nz"] * sh["nx"] * sh["ny"]),))
        w = world()
        fn = reader(w, c, data, [])
        X.reached(c, "call")
        for bad in ("middle", None, "byte_order", "", "LITTLE"):
            X.oblige(c, "an unknown byte order is rejected", rejects(lambda: fn(
                "m.bin", byte_order=bad, axes_order=(0, 1, 2), axes_order_sort="F", dtype="float32", **sh), ValueError))
        for k in sh:
            X.oblige(c, "a missing size is rejected", rejects(lambda: fn(
                "m.bin", byte_order="big", axes_order=(0, 1, 2), axes_order_sort="F", dtype="float32",
                **dict(sh, **{k: None})), ValueError))
    return H("binary model rejections", [f"{SIZ}:read_velocity_model", f"{SIZ}:_read_bin"], run)


def segy():
    def run(c, X):
        nz, nx = iv(c, "nz", 1), iv(c, "nx", 1)
        S_ = arr(c, "samples", (nx, nz))

        class Segy(File):
            samples = symnp.SymList(nz, lambda i: S(z3.RealVal(0)))
            trace = symnp.SymList(nx, lambda i: S_[i])

        def havoc(c, env, i):
            return {"vp": arr(c, "vp", (nz, nx))}

        def holds(c, env, i):
            z, x = S(c.fresh("z", I)), S(c.fresh("x", I))
            c.note(nz, z.e)
            c.note(nx, x.e)
            vp = env["vp"]
            if not (isinstance(vp, symnp.SymArray) and vp.ndim == 2):
                raise KeyError("vp")
            return [("the traces read so far are columns",
                     All([nz, nx], lambda z, x: z3.Implies(ex(x) < ex(i), ex(vp.at(S(ex(z)), S(ex(x)))) == ex(S_.at(S(ex(x)), S(ex(z))))))),
                    ("one column per trace", shape_is(vp, nz, nx))]
        w = world(loops=[Inv("traces", lambda i, e: i[1] == "_read_segy", havoc, holds)],
                  segyio=Mod("segyio", open=lambda name, **k: Segy(name)))
        r = w.fn(SIZ, "read_velocity_model")(filename="model.segy")
        V, a, b, n = r
        X.oblige(c, "the sizes are returned", And(ex(a) == nz.e, ex(b) == nx.e))
        X.oblige(c, "depth and x", shape_is(V, nz, nx))
        z, x = idx(c, nz, "z"), idx(c, nx, "x")
        X.reached(c, "sample")
        X.oblige(c, "every sample is kept at its place", ex(V.at(z, x)) == ex(S_.at(x, nz - 1 - z)), rounds=4)
    return H("segy model", [f"{SIZ}:read_velocity_model", f"{SIZ}:_read_segy"], run)


def clip(e, lo, hi):
    lo, hi = ex(logic.real(lo)), ex(logic.real(hi))
    return z3.If(e < lo, lo, z3.If(e > hi, hi, e))


def convert(dim, units, crit="wl"):
    """the velocities handed to the criteria: scaled, water replaced"""
    def run(c, X):
        o = {"hmin": 1.0, "hmax": 1e4}
        o.update({"grad": 50.0} if crit == "grad" else {"wl": 5, "freq": 2.0})
        if units:
            o["units"] = units
        water = rv(c, "vp_water")
        o["vp_water"] = water
        g = Sizing(c, X, dim, water=True, opts=o)
        fac = {None: 1.0, "m-s": 1.0, "km-s": 1000.0, "ft-s": 0.30}[units]
        ix = [idx(c, n, "i") for n in g.shape]
        v = ex(g.v0.at(*ix))
        try:
            g.go()
        except ValueError:
            X.reached(c, "rejected")
            low = Ex(list(g.shape), lambda *i: ex(g.v0.at(*[S(ex(k)) for k in i])) * ex(logic.real(fac)) < z3.RealVal("1/1000"))
            X.oblige(c, "only water velocities out of range are rejected",
                     And(Or(water.e < 1300, water.e > 1800), low), rounds=4)
            return
        X.reached(c, "converted")
        if crit == "grad":
            if not g.filters:
                raise Unsupported("the velocities are used differently")
            u, use = g.filters[0][0], lambda e: e
        else:
            u, use = g.values(), lambda e: clip(e / 10, 1.0, 1e4)
        X.oblige(c, "one velocity per sample", shape_is(u, *g.shape))
        got = ex(u.at(*ix))
        X.oblige(c, "water receives the requested velocity", Imp(v == 0, got == use(water.e)), rounds=3)
        X.oblige(c, "every other sample is scaled by the factor of the units",
                 Imp(v * ex(logic.real(fac)) >= z3.RealVal("1/1000"), got == use(v * ex(logic.real(fac)))), rounds=3)
        X.oblige(c, "the array of the caller is not modified", g.v.buf.version == 0)
    return H(f"units={units} dim={dim} {crit}", SIZING, run)


def interpolant(dim, padded):
    """the interpolant of the returned size function has the grid of the (padded) box and the computed sizes"""
    def run(c, X):
        o = {"hmin": 1.0, "hmax": 1e4}
        if padded:
            o["domain_pad"] = rv(c, "w")
            c.assume(o["domain_pad"].e > 0)
        out = {}

        def padding(cell, vp, bbox, opts):
            if not padded:
                return cell, vp, bbox
            sh = [iv(c, "m", 1) for _ in range(dim)]
            out["cell"], out["vp"] = arr(c, "pcell", tuple(sh)), arr(c, "pvp", tuple(sh))
            out["bbox"] = tuple(rv(c, "pb") for _ in range(2 * dim))
            return out["cell"].copy(), out["vp"].copy(), out["bbox"]
        g = Sizing(c, X, dim, opts=o, stubs={f"{SIZ}:_build_domain_pad": padding} if padded else None)
        r = g.go()
        val = g.values()
        box = out["bbox"] if padded else g.bbox
        sh = out["cell"].shape if padded else g.shape
        if padded:
            if not out:
                raise Unsupported("padding is organised differently")
            alike(X, c, val, out["cell"], "the padded sizes are interpolated")
        vecs = g.grids[0][0]
        X.reached(c, "interpolant")
        X.oblige(c, "the box of the size function", And(*[ex(a) == ex(b) for a, b in zip(r.bbox, box)]) if len(r.bbox) == 2 * dim else False)
        X.oblige(c, "one grid vector per axis", len(vecs) == dim)
        for k in range(dim):
            vec = symnp.asarray(vecs[k])
            n = sh[k]
            X.oblige(c, f"axis {k}: as many grid points as sizes", And(shape_is(vec, n), ex(val.shape[k]) == ex(n)))
            i = idx(c, n, "i")
            lo, hi = box[2 * k], box[2 * k + 1]
            X.oblige(c, f"axis {k}: equally spaced over the box",
                     Imp(ex(n) > 1, ex((vec.at(i) - lo) * (n - 1)) == ex((hi - lo) * i)))
        X.oblige(c, "queries outside the box are extrapolated, not rejected",
                 g.grids[0][2].get("bounds_error", True) is False and g.grids[0][2].get("fill_value", 0) is None)
        X.oblige(c, "linear interpolation", g.grids[0][2].get("method", "linear") == "linear")
        q = object()
        X.oblige(c, "the size function evaluates the interpolant", r.eval(q) is q)
    return H(f"interpolant dim={dim} padded={padded}", SIZING, run)


def harnesses():
    return ([binary(a, s, b) for a, s, b in zip(list(itertools.permutations(range(3))) * 2, "C" * 6 + "F" * 6,
                                                ("big", "little") * 6)]
            + [refuse(), segy()] + [convert(2, u) for u in (None, "m-s", "km-s", "ft-s")] + [convert(3, "km-s"), convert(2, "km-s", "grad")]
            + [interpolant(d, p) for d in (2, 3) for p in (False, True)])
