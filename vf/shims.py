"""Contracts of the C++ extensions and of scipy / mpi4py objects as seen by the Python code.

The contracts of functions of /repo's own extensions are themselves verified against
their C++ source (vf/cxx.py harnesses of C01, C05, C08, C09, C13, C19)."""
import z3

from . import symnp, logic
from .logic import S, ctx, ex, R, I, smin, ssqrt, real
from .pyload import Mod, AnyMod, Missing


def drectangle_fast(p, x1, x2, y1, y2):
    p = symnp.asarray(p)
    rd = p.snap()
    return symnp.SymArray((p.shape[0],), lambda i: -smin(smin(smin(rd(i, 1) - y1, y2 - rd(i, 1)), rd(i, 0) - x1),
                                                         x2 - rd(i, 0)), "f")


def dblock_fast(p, x1, x2, y1, y2, z1, z2):
    p = symnp.asarray(p)
    rd = p.snap()

    def el(i):
        m = smin(rd(i, 2) - z1, z2 - rd(i, 2))
        m = smin(smin(m, rd(i, 1) - y1), y2 - rd(i, 1))
        return -smin(smin(m, rd(i, 0) - x1), x2 - rd(i, 0))
    return symnp.SymArray((p.shape[0],), el, "f")


def det_rows(m):
    """Leibniz expansion"""
    n = len(m)
    if n == 1:
        return m[0][0]
    r = None
    for j in range(n):
        t = m[0][j] * det_rows([row[:j] + row[j + 1:] for row in m[1:]])
        t = t if j % 2 == 0 else -t
        r = t if r is None else r + t
    return r


def calc_4x4determinant(a):
    """batched: (n,4,4) or (4,4) -> array"""
    a = symnp.asarray(a)
    rd = a.snap()
    if a.ndim == 2:
        if a.shape == (4, 4):
            v = det_rows([[rd(i, j) for j in range(4)] for i in range(4)])
            return symnp.SymArray((1,), lambda i: v, "f")
        n = symnp.norm_dim(a.shape[0] // 4)
        return symnp.SymArray((n,), lambda k: det_rows([[rd(k * 4 + i, j) for j in range(4)] for i in range(4)]), "f")
    return symnp.SymArray((a.shape[0],), lambda k: det_rows([[rd(k, i, j) for j in range(4)] for i in range(4)]), "f")


def fast_geometry(**over):
    m = AnyMod("_fast_geometry")
    m.drectangle_fast = drectangle_fast
    m.dblock_fast = dblock_fast
    m.calc_4x4determinant = calc_4x4determinant
    m.__dict__.update(over)
    return m


def ext(**over):
    d = {
        "_fast_geometry": fast_geometry(),
        "_delaunay": AnyMod("_delaunay"),
        "_delaunay_class": AnyMod("_delaunay_class"),
        "_delaunay_class3": AnyMod("_delaunay_class3"),
        "_cpputils": AnyMod("_cpputils"),
        "_FastHJ": AnyMod("_FastHJ"),
    }
    d.update(over)
    return d
