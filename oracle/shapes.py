"""random shapes and an independent definition of their signed distances"""
import numpy as np

from SeismicMesh.geometry import signed_distance_functions as sdf
import util

F = "geometry/signed_distance_functions.py"
KINDS2 = ["Disk", "Rectangle"]
KINDS3 = ["Ball", "Cube", "Torus", "Prism", "Cylinder"]


def box(rng, dim, s):
    b = []
    for _ in range(dim):
        lo = rng.uniform(-2, 2) * s
        b += [lo, lo + rng.choice([0.05, 1.0, 3.0]) * rng.uniform(0.2, 2) * s]
    return tuple(float(v) for v in b)


def params(rng, kind, s=None):
    s = util.scale(rng, (F,)) if s is None else s
    u = lambda a=0.2, b=2.0: float(rng.uniform(a, b) * s)
    if kind == "Disk":
        return ([float(v) for v in rng.uniform(-2, 2, 2) * s], u())
    if kind == "Ball":
        return ([float(v) for v in rng.uniform(-2, 2, 3) * s], u())
    if kind == "Rectangle":
        return (box(rng, 2, s),)
    if kind == "Cube":
        return (box(rng, 3, s),)
    if kind == "Torus":
        r = [u(0.5, 2), u(0.05, 0.9)]
        if rng.random() < 0.3:
            r = r[::-1]
        return tuple(r)
    if kind == "Prism":
        return (u(0.05, 2), u(0.05, 2))
    if kind == "Cylinder":
        return (u(0.05, 4), u(0.05, 2))


def size_of(kind, par):
    return float(np.max(np.abs(np.concatenate([np.ravel(np.asarray(q, float)) for q in par])))) + 1e-300


def exact(kind, par, x):
    x = np.asarray(x, float)
    if kind in ("Disk", "Ball"):
        return np.linalg.norm(x - np.array(par[0]), axis=1) - par[1]
    if kind in ("Rectangle", "Cube"):
        b = np.array(par[0]).reshape(-1, 2)
        return np.max(np.maximum(b[:, 0] - x, x - b[:, 1]), axis=1)
    if kind == "Torus":
        return np.hypot(np.hypot(x[:, 0], x[:, 2]) - par[0], x[:, 1]) - par[1]
    if kind == "Prism":
        b, h = par
        return np.maximum(np.abs(x[:, 2]) - h,
                          np.maximum(np.abs(x[:, 0]) * 0.866025 + x[:, 1] * 0.5, -x[:, 1]) - b * 0.5)
    if kind == "Cylinder":
        h, r = par[0] / 2, par[1]
        dr, dy = np.hypot(x[:, 0], x[:, 2]) - r, np.abs(x[:, 1]) - h
        out = np.hypot(np.maximum(dr, 0), np.maximum(dy, 0))
        return np.where((dr <= 0) & (dy <= 0), np.maximum(dr, dy), out)


def make(kind, par, **kw):
    return getattr(sdf, kind)(*[list(q) if isinstance(q, list) else q for q in par], **kw)


def dim(kind):
    return 2 if kind in KINDS2 else 3


def special(kind, par):
    """points on the surface, at the centre, at corners / edges and on the axes"""
    d = dim(kind)
    out = []
    if kind in ("Disk", "Ball"):
        c, r = np.array(par[0]), par[1]
        out.append(c)
        for k in range(d):
            for s in (-1, 1, 0.5, -2):
                e = c.copy()
                e[k] += s * r
                out.append(e)
    elif kind in ("Rectangle", "Cube"):
        import itertools
        b = np.array(par[0]).reshape(-1, 2)
        g = [[lo, hi, (lo + hi) / 2, lo - (hi - lo), hi + (hi - lo)] for lo, hi in b]
        out += [np.array(q) for q in itertools.product(*g)]
    else:
        a, b = par
        v = sorted({0.0, a, b, -a, -b, a / 2, b / 2, -a / 2, -b / 2, a + b, a - b})
        import itertools
        out += [np.array(q) for q in itertools.product(v, repeat=3)]
    return np.array(out)


def points(rng, kind, par, n):
    s = size_of(kind, par)
    d = dim(kind)
    x = rng.uniform(-3, 3, (n, d)) * s
    if n > 4:
        sp = special(kind, par)
        k = min(n // 2, len(sp))
        x[rng.permutation(n)[:k]] = sp[rng.permutation(len(sp))[:k]]
        near = rng.permutation(n)[: n // 4]
        x[near] = np.round(x[near] / s, 1) * s
    return x


def transform(rng, d, rot=True):
    kw = {}
    if rng.random() < 0.75:
        a = [0.0, 0.0, 0.0]
        if d == 2:
            a[0] = float(rng.choice([np.pi / 2, np.pi / 4, -0.3, rng.uniform(-4, 4), 1e-3]))
        else:
            which = rng.random(3) < 0.6
            if not which.any():
                which[rng.integers(3)] = True
            for k in range(3):
                if which[k]:
                    a[k] = float(rng.choice([np.pi / 2, np.pi / 4, -0.3, rng.uniform(-4, 4), 1e-3]))
        kw["rotate"] = a
    if rng.random() < 0.6:
        v = rng.uniform(-1, 1, d)
        if rng.random() < 0.3:
            v = np.zeros(d)
            v[rng.integers(d)] = rng.choice([-1.0, 1.0])
        v = v / np.linalg.norm(v) * rng.choice([1.0, 0.3, 2.0, 5.0, rng.uniform(0.2, 4)])
        kw["stretch"] = v if rng.random() < 0.8 else v
    if rng.random() < 0.6:
        t = rng.uniform(-3, 3, d)
        kw["translate"] = t if rng.random() < 0.5 else [float(q) for q in t]
    return kw


def forward(d, kw, x):
    """stretch, then rotation about z, y, x, then translation"""
    y = np.asarray(x, float)
    if kw.get("stretch") is not None:
        v = np.array(kw["stretch"], float)
        al = np.linalg.norm(v)
        u = v / al
        y = y + (al - 1.0) * np.outer(y @ u, u)
    if kw.get("rotate") is not None:
        a = kw["rotate"]
        if d == 2:
            R = np.array([[np.cos(a[0]), -np.sin(a[0])], [np.sin(a[0]), np.cos(a[0])]])
        else:
            R = util.rot3(a)
        y = y @ R.T
    if kw.get("translate") is not None:
        y = y + np.array(kw["translate"], float)
    return y
