"""inputs and reference implementations shared by the executable contracts"""
import ast
import itertools
import os
import re

import numpy as np

REPO = os.environ.get("VF_REPO", "/repo")


def harvest(*files):
    """numeric literals of source files: candidate thresholds / magic values"""
    out = set()
    for f in files:
        p = os.path.join(REPO, "SeismicMesh", f)
        try:
            src = open(p).read()
        except OSError:
            continue
        if p.endswith(".py"):
            try:
                for n in ast.walk(ast.parse(src)):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        out.add(n.value)
            except SyntaxError:
                pass
        else:
            for t in re.findall(r"(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?)", src):
                try:
                    out.add(float(t) if ("." in t or "e" in t.lower()) else int(t))
                except ValueError:
                    pass
    return out


def sizes(files=(), cap=20000, base=(0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129,
                                     255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096,
                                     4097, 5000, 8191, 8192, 8193, 10000, 16384, 16385, 20000)):
    s = set(b for b in base if b <= cap)
    for v in harvest(*files):
        if v == int(v) and 0 <= v <= cap:
            s |= {int(v), int(v) + 1, max(0, int(v) - 1)}
    return sorted(s)


def mags(files=()):
    """magnitudes: usual scales plus literals of the source"""
    v = {1.0, 0.1, 1e-3, 10.0, 1000.0, 12345.0, 1e6}
    for h in harvest(*files):
        if 1e-9 < abs(h) < 1e9:
            v.add(abs(float(h)))
    return sorted(v)


def scale(rng, files=()):
    m = mags(files)
    return float(m[rng.integers(len(m))]) * float(rng.choice([1.0, 1.0, 0.999, 1.001, rng.uniform(0.3, 3)]))


# ---------------------------------------------------------------- meshes
def grid2(nx, ny, rng=None, jitter=0.0, diag=None):
    x, y = np.meshgrid(np.arange(nx + 1.0), np.arange(ny + 1.0), indexing="ij")
    p = np.column_stack((x.ravel(), y.ravel()))
    t = []
    for i in range(nx):
        for j in range(ny):
            a, b, c, d = i * (ny + 1) + j, (i + 1) * (ny + 1) + j, (i + 1) * (ny + 1) + j + 1, i * (ny + 1) + j + 1
            alt = (rng.random() < 0.5) if (rng is not None and diag is None) else bool(diag)
            t += [[a, b, c], [a, c, d]] if alt else [[a, b, d], [b, c, d]]
    if rng is not None and jitter:
        p = p + rng.uniform(-jitter, jitter, p.shape)
    return p, np.array(t, dtype=int)


def delaunay(rng, n, dim, scale=1.0, off=0.0):
    from scipy.spatial import Delaunay
    p = rng.random((n, dim)) * scale + off
    t = Delaunay(p).simplices.astype(int)
    return p, t


def vol(p, t):
    q = p[t]
    m = q[:, 1:] - q[:, :1]
    f = 1.0
    for k in range(1, p.shape[1] + 1):
        f *= k
    return np.linalg.det(m) / f


def orient(p, t):
    t = t.copy()
    v = vol(p, t)
    t[v < 0] = t[v < 0][:, [1, 0] + list(range(2, t.shape[1]))]
    return t


def rand_mesh(rng, dim, n=None, drop=True, unused=True, scale=1.0, perm=True, degenerate=False):
    """random simplex mesh: Delaunay of random points with random elements dropped, vertices left unused,
    rows and columns permuted"""
    n = n or int(rng.integers(dim + 2, 40))
    p, t = delaunay(rng, n, dim, scale)
    if not degenerate:
        v = np.abs(vol(p, t))
        t = t[v > 1e-9 * scale ** dim]
    if drop and len(t) > 1 and rng.random() < 0.7:
        keep = rng.random(len(t)) < rng.choice([0.3, 0.6, 0.9])
        if keep.any():
            t = t[keep]
    if not unused:
        u, inv = np.unique(t, return_inverse=True)
        p, t = p[u], inv.reshape(t.shape)
    if perm:
        q = rng.permutation(len(p))
        iq = np.empty_like(q)
        iq[q] = np.arange(len(q))
        p, t = p[q], iq[t]
        t = t[rng.permutation(len(t))]
        t = np.array([r[rng.permutation(dim + 1)] for r in t]).reshape(-1, dim + 1)
    return p, t


def sub_edges(row):
    return [tuple(sorted(e)) for e in itertools.combinations([int(v) for v in row], 2)]


def sub_facets(row):
    return [tuple(sorted(e)) for e in itertools.combinations([int(v) for v in row], 3)]


def rowset(a):
    a = np.asarray(a)
    if a.size == 0:
        return []
    return [tuple(r) for r in sorted(np.sort(a.reshape(len(a), -1).astype(np.int64), axis=1).tolist())]


def counts(rows):
    d = {}
    for r in rows:
        d[r] = d.get(r, 0) + 1
    return d


def close(a, b, tol=1e-9, ref=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.maximum(1.0, np.maximum(np.abs(a), np.abs(b))) if ref is None else ref
    with np.errstate(all="ignore"):
        return bool(np.all(np.abs(a - b) <= tol * s))


def rot3(a):
    cx, sx, cy, sy, cz, sz = np.cos(a[0]), np.sin(a[0]), np.cos(a[1]), np.sin(a[1]), np.cos(a[2]), np.sin(a[2])
    Rx = np.array([[1, 0, 0], [0, cx, -sx], [0, sx, cx]])
    Ry = np.array([[cy, 0, sy], [0, 1, 0], [-sy, 0, cy]])
    Rz = np.array([[cz, -sz, 0], [sz, cz, 0], [0, 0, 1]])
    return Rx @ Ry @ Rz


def quiet(f, *a, **k):
    import contextlib
    import io
    import warnings
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def private(mod, name, nargs=None):
    """a helper that is not part of the interface: None when it no longer exists in this form"""
    import inspect
    f = getattr(mod, name, None)
    if f is None or not callable(f):
        return None
    if nargs is not None:
        try:
            inspect.signature(f).bind(*range(nargs))
        except TypeError:
            return None
        except ValueError:
            pass
    return f
