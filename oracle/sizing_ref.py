"""reference for the sizing criteria"""
import numpy as np
from scipy import ndimage

SF = ("sizing/mesh_size_function.py", "sizing/cpp/FastHJ.cpp")


def velocity(rng, dim, n=None):
    sh = tuple(int(x) for x in (rng.integers(4, 14, dim) if n is None else n))
    kind = rng.integers(5)
    if kind == 0:
        v = np.full(sh, float(rng.uniform(1400, 6000)))
    elif kind == 1:
        v = rng.uniform(1400, 6000, sh)
    elif kind == 2:
        v = np.full(sh, 1500.0)
        v[tuple(slice(int(rng.integers(0, s)), None) for s in sh)] = 4500.0
    elif kind == 3:
        v = 1500 + 100.0 * np.indices(sh).sum(0)
    else:
        v = 10 ** rng.uniform(-2, 5, sh)
    return v


def bbox_of(rng, dim):
    b = []
    for d in range(dim):
        lo = float(rng.choice([0.0, -5000.0, 1234.5, -1e5]))
        b += [lo, lo + float(rng.choice([1000.0, 1234.0, 12000.0, 3e5]))]
    return tuple(b)


def expected(v, hmin, hmax, wl, freq, grad, stencil, dt, cr, so):
    h = np.full(v.shape, float(hmin))
    if wl > 0 or grad > 0:
        a = v / (freq * wl) if wl > 0 else np.inf
        b = np.inf
        if grad > 0:
            w = tuple([stencil] * v.ndim) if np.isscalar(stencil) else tuple(stencil)
            m = ndimage.uniform_filter(v, w)
            var = ndimage.uniform_filter(v ** 2, w) - m ** 2
            if var.max() > 0:
                var = var / var.max()
            var = var - var.min()
            b = grad / (var + 0.10)
        h = np.minimum(a, b)
    h = np.maximum(h, hmin)
    h = np.minimum(h, hmax)
    if cr != 0 and dt != 0 and so != 0:
        h = np.where(v * dt * so / h > cr, v * dt * so / cr, h)
    return h
