import math

import numpy as np
import sizing_ref as sr
import util
import SeismicMesh as sm
from SeismicMesh.sizing import mesh_size_function as ms
import _FastHJ

BOUNDS = "grids up to 200 cells per axis in 2D and 30 in 3D, singleton axes included; reference: exact lower envelope"
quiet = util.quiet


def field(rng, sh, k):
    kind = k % 7
    a = float(rng.choice([1.0, 100.0, 1e4, 1e-2]))
    f = rng.uniform(1, 20, sh)
    if kind == 0:
        f = np.full(sh, 50.0)
        f[tuple(int(rng.integers(0, s)) for s in sh)] = 1.0
    elif kind == 1:
        f = np.full(sh, 50.0)
        for _ in range(3):
            f[tuple(int(rng.choice([0, s - 1])) for s in sh)] = rng.uniform(1, 5)
    elif kind == 2:
        f = 1 + 3.0 * np.indices(sh)[int(rng.integers(0, len(sh)))]
    elif kind == 3:
        f = 1 + 30.0 * np.indices(sh)[int(rng.integers(0, len(sh)))][tuple(slice(None, None, -1) for _ in sh)]
    elif kind == 4:
        f = 10 ** rng.uniform(-2, 3, sh)
    return f * a


def envelope(f, g):
    """largest field below f whose axis neighbours differ by at most g"""
    r = f.copy()
    for ax in range(f.ndim):
        r = np.moveaxis(r, ax, 0)
        for i in range(1, len(r)):
            r[i] = np.minimum(r[i], r[i - 1] + g)
        for i in range(len(r) - 2, -1, -1):
            r[i] = np.minimum(r[i], r[i + 1] + g)
        r = np.moveaxis(r, 0, ax)
    return r


def verify(o, f, r, g, inp):
    tol = 1.01 * math.sqrt(1e-9) * f.min() + 1e-12 * f.max()
    o.check(r.shape == f.shape, f"shape {r.shape} instead of {f.shape}", inp)
    o.check(np.all(r <= f * (1 + 1e-15)), "limited field exceeds the input", inp)
    o.check(r.min() >= f.min() * (1 - 1e-15), "limited field falls below the minimum of the input", inp)
    for ax in range(f.ndim):
        d = np.abs(np.diff(r, axis=ax))
        o.check(d.size == 0 or d.max() <= g + tol, f"neighbours along axis {ax} differ by {d.max() if d.size else 0}, allowed {g}", inp)
    e = envelope(f, g)
    o.check(np.all(r >= e - 1e-9 * f.max()), "limited more than needed", inp)
    if np.array_equal(e, f):
        o.check(np.array_equal(r, f), "a field within the bound was changed", inp)


def run(o):
    szs = [s for s in util.sizes(sr.SF, cap=200) if s]

    def kernel(rng, k):
        if k < len(szs):
            sh = (szs[k], int(rng.integers(1, 9)), 1) if k % 3 == 0 else (int(rng.integers(1, 9)), szs[k], 1) if k % 3 == 1 else (int(rng.integers(1, 5)), int(rng.integers(1, 5)), min(szs[k], 120))
        elif rng.random() < 0.5:
            sh = tuple(int(x) for x in rng.integers(1, 9, 3))
        else:
            sh = tuple(int(x) for x in rng.integers(1, 30, 2)) + (1,)
        f = field(rng, sh, k)
        elen, rate = float(rng.choice([1.0, 10.0, 0.1])), float(rng.choice([0.1, 0.5, 1.0, 3.0, 0.01]))
        if elen * rate < 1e-4 * f.min():
            return
        ff = f.flatten("F")
        f0 = ff.copy()
        r = np.asarray(_FastHJ.limgrad(list(sh), elen, rate, 10000, ff)).ravel()
        inp = {"f": f, "elen": elen, "rate": rate}
        o.check(np.array_equal(ff, f0), "input field modified", inp)
        verify(o, f, r.reshape(sh, order="F"), elen * rate, inp)
    o.group("kernel", kernel, o.n(220, 3000), limit=60)

    fn = util.private(ms, "_enforce_gradation_sizing", 3)

    def wrapper(rng, k):
        if fn is None:
            return
        dim = 2 + k % 2
        sh = tuple(int(x) for x in rng.integers(2, 14, dim))
        f = field(rng, sh, k)
        if rng.random() < 0.4:
            f = np.asfortranarray(f)
        elen, rate = float(rng.choice([1.0, 10.0])), float(rng.choice([0.1, 0.35, 1.0, 2.0]))
        f0 = f.copy()
        r = np.asarray(quiet(fn, f, rate, elen))
        inp = {"f": f0, "elen": elen, "rate": rate}
        o.check(np.array_equal(f, f0), "input modified", inp)
        verify(o, f0, r, elen * rate, inp)
        r0 = np.asarray(quiet(fn, f, 0.0, elen))
        o.check(np.array_equal(r0, f0), "gradation off: unchanged", inp)
        o.raises(lambda: quiet(fn, f, -rate, elen), (ValueError,), "negative gradation accepted", inp)
    o.group("wrapper", wrapper, o.n(80, 800), limit=40)

    def public(rng, k):
        dim = 2 + k % 2
        sh = tuple(int(x) for x in rng.integers(4, 14, dim))
        v = rng.uniform(1500, 6000, sh)
        if k % 3:
            v = sr.velocity(rng, dim, sh) + 1400
        L = 100.0
        bbox = tuple(x for s in sh for x in (0.0, L * sh[0]))
        grade = float(rng.choice([0.05, 0.15, 0.5, 1.0]))
        hmin = 30.0
        kw = dict(velocity_data=v, nz=sh[0], nx=sh[1], hmin=hmin, hmax=5000.0, wl=5, freq=2.0, grade=grade)
        if dim == 3:
            kw["ny"] = sh[2]
        ef = quiet(sm.get_sizing_function_from_segy, "x", bbox, **kw)
        ef0 = quiet(sm.get_sizing_function_from_segy, "x", bbox, **{**kw, "grade": 0.0})
        import C12
        h, h0 = C12.grid_values(ef, sh, bbox), C12.grid_values(ef0, sh, bbox)
        inp = {"v": v, "bbox": bbox, "grade": grade}
        eps = 1e-4 * h0.max()
        o.check(np.all(h <= h0 + eps) and h.min() >= h0.min() - eps, "bounds after gradation", inp)
        for ax in range(dim):
            o.check(np.abs(np.diff(h, axis=ax)).max() <= grade * L + eps, f"gradation along axis {ax}", inp)
    o.group("public", public, o.n(16, 150), limit=40)
