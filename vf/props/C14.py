"""C14 domain padding"""
from ..hlp import *
from ..run import H
from .. import symnp, logic
from ..logic import Unsupported
from .sizing import Sizing, COVERED as SIZING
from .C16 import rejects

ASSUMPTIONS = ["numpy.pad through its documented contract (vf/symnp.py pad)"]
PAD = [f"{SIZ}:_build_domain_pad", f"{SIZ}:_pad_it", f"{SIZ}:_get_dimensions"]


def zlo(a, b):
    return z3.If(a < b, a, b)


def pad(dim, style, grid):
    def run(c, X):
        sh = [iv(c, k, 1) for k in ("nz", "nx", "ny")[:dim]]
        cell, vp = arr(c, "cell", tuple(sh)), arr(c, "vp", tuple(sh))
        c.assume_all(sh, lambda *i: ex(cell.at(*[S(ex(k)) for k in i])) > 0)
        c.assume_all(sh, lambda *i: ex(vp.at(*[S(ex(k)) for k in i])) > 0)
        b = [rv(c, f"b{k}") for k in range(2 * dim)]
        w = rv(c, "w")
        d = []
        for k in range(dim):
            c.assume(b[2 * k].e < b[2 * k + 1].e)
            d.append((b[2 * k + 1] - b[2 * k]) / sh[k])
        c0, v0 = cell.copy(), vp.copy()
        fn = world().fn(SIZ, "_build_domain_pad")
        try:
            C, V, B = fn(cell, vp, tuple(b), {"domain_pad": w, "pad_style": style})
        except ValueError:
            X.reached(c, "rejected")
            ok = style in ("edge", "constant", "linear_ramp")
            X.oblige(c, "only a negative width or an unknown style is rejected", w.e < 0 if ok else w.e != 0)
            return
        X.reached(c, "padded")
        X.oblige(c, "a negative width is rejected", w.e >= 0)
        if style not in ("edge", "constant", "linear_ramp"):
            X.oblige(c, "an unknown style is rejected", w.e == 0)
        X.oblige(c, "the grids of the caller are not modified", And(cell.buf.version == 0, vp.buf.version == 0))
        want = []
        for k in range(dim):
            want += [b[2 * k] - w, b[2 * k + 1] if k == 0 else b[2 * k + 1] + w]
        X.oblige(c, "the box grows by the width on the right sides",
                 And(*[ex(x) == ex(y) for x, y in zip(B, want)]) if len(B) == 2 * dim else False)
        X.oblige(c, "a box as before", isinstance(B, tuple) and len(B) == 2 * dim)
        for nm, A, old in (("size", C, c0),) if grid == "size" else (("velocity", V, v0),):
            X.oblige(c, f"{nm}: as many axes as before", A.ndim == dim)
            n, side = [], []
            for k in range(dim):
                e = ex(A.shape[k]) - ex(sh[k])
                m = S(c.fresh("m", I))
                c.assume(m.e * (1 if k == 0 else 2) == e) if c.implied(e % (1 if k == 0 else 2) == 0) else None
                n.append(m)
                X.oblige(c, f"{nm}: axis {k} grows on its sides", m.e * (1 if k == 0 else 2) == e)
                X.oblige(c, f"{nm}: axis {k} grows by the whole cells in the width",
                         And(m.e >= 0, ex(m * d[k]) <= w.e, w.e < ex((m + 1) * d[k])))
            ix = [idx(c, s, "i") for s in A.shape]
            v = A.at(*ix)
            near = [S(z3.If(i.e < m.e, 0, z3.If(i.e >= m.e + ex(s), ex(s) - 1, i.e - m.e))) for i, m, s in zip(ix, n, sh)]
            for q, s in zip(near, sh):
                c.note(s, q.e)
            inside = z3.And(*[z3.And(i.e >= m.e, i.e < m.e + ex(s)) for i, m, s in zip(ix, n, sh)])
            o = old.at(*near)
            top = symnp.amax(old)
            X.oblige(c, f"{nm}: values of the original grid are kept", Imp(inside, ex(v) == ex(o)), rounds=3)
            if style == "edge":
                X.oblige(c, f"{nm}: padding repeats the nearest value", ex(v) == ex(o))
            elif style == "constant":
                X.oblige(c, f"{nm}: padding uses the maximum", Imp(z3.Not(inside), ex(v) == ex(top)), rounds=3)
            else:
                X.oblige(c, f"{nm}: the ramp is not below the nearest value", ex(v) >= ex(o), rounds=3)
                X.oblige(c, f"{nm}: the ramp is not above the maximum", ex(v) <= ex(top), rounds=3)
    return H(f"padding of the {grid} grid dim={dim} style={style}", PAD, run, timeout=60)


def harnesses():
    return [pad(d, s, g) for g in ("size", "velocity") for d in (2, 3) for s in ("edge", "constant", "linear_ramp")
            ] + [pad(2, "wrap", "size"), pad(3, None, "size")]
