"""get_sizing_function_from_segy on a symbolic velocity model"""
from ..hlp import *
from .. import symnp, logic
from ..logic import Unsupported
from ..pyload import Mod, AnyMod
from .genmesh import Comm


class Sizing:
    """one call; records the arguments of scipy's interpolator and filter"""

    def __init__(self, c, X, dim, water=False, opts=None, stubs=None):
        self.c, self.X, self.dim = c, X, dim
        self.shape = [iv(c, k, 1) for k in ("nz", "nx", "ny")[:dim]]
        self.v = arr(c, "vp", tuple(self.shape))
        if not water:
            c.assume_all(self.shape, lambda *i: ex(self.v.at(*[S(ex(k)) for k in i])) >= z3.RealVal("1/1000"))
        self.v0 = self.v.copy()
        self.bbox = tuple(rv(c, f"b{k}") for k in range(2 * dim))
        self.opts = dict(zip(("nz", "nx", "ny"), self.shape))
        self.opts.update(velocity_data=self.v, comm=Comm())
        self.opts.update(opts or {})
        self.filters, self.grids = [], []
        self.stubs = stubs or {}

    def uniform_filter(self, a, size, *r, **k):
        if r or k:
            raise Unsupported("uniform_filter options")
        a = symnp.asarray(a)
        out = arr(self.c, "filtered", a.shape)
        self.filters.append((a.copy(), size, out.copy()))
        return out

    def interpolator(self, vecs, values, **k):
        self.grids.append((vecs, symnp.asarray(values).copy(), k))
        self.interp = lambda p: p
        return self.interp

    def go(self):
        sp = AnyMod("scipy", ndimage=Mod("scipy.ndimage", uniform_filter=self.uniform_filter),
                    interpolate=Mod("scipy.interpolate", RegularGridInterpolator=self.interpolator))
        w = world(stubs=self.stubs, **{"scipy": sp, "scipy.interpolate": sp.interpolate,
                                        "_FastHJ": Mod("_FastHJ", limgrad=getattr(self, "limgrad", None))})
        self.w = w
        return w.fn(SIZ, "get_sizing_function_from_segy")("model.bin", self.bbox, **self.opts)

    def values(self):
        """grid values of the size function"""
        if len(self.grids) != 1:
            raise Unsupported("the interpolant is built differently")
        return self.grids[0][1]


COVERED = [f"{SIZ}:get_sizing_function_from_segy", f"{SIZ}:_initialize_sizing_function", f"{SIZ}:_wavelength_sizing",
           f"{SIZ}:_gradient_sizing", f"{SIZ}:_enforce_courant_sizing", f"{SIZ}:_enforce_gradation_sizing",
           f"{SIZ}:_build_domain_pad", f"{SIZ}:_build_sizing_function"]
