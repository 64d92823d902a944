"""C02 transformed shapes: value at T(x) equals the value of the untransformed shape at x"""
import itertools

from ..hlp import *
from ..run import H

ASSUMPTIONS = ["a stretch vector is nonzero (written as alpha*u with alpha>0, |u|=1)",
               "2D shapes are rotated by the first angle only (their only rotation)"]


def unit(c, dim):
    us = [c.fresh(f"u{k}", R) for k in range(dim)]
    q = 1 - sum((us[k] * us[k] for k in range(1, dim - 1)), us[0] * us[0]) if dim > 1 else z3.RealVal(1)
    c.squares[us[-1].get_id()] = (us[-1], q)
    c.fact(us[-1] * us[-1] == q)
    return us


def params(c, cls):
    g = lambda n: rv(c, n)
    if cls == "Disk":
        return ([g("xc"), g("yc")], g("r")), 2
    if cls == "Ball":
        return ([g("xc"), g("yc"), g("zc")], g("r")), 3
    if cls == "Rectangle":
        return (tuple(g(f"b{k}") for k in range(4)),), 2
    if cls == "Cube":
        return (tuple(g(f"b{k}") for k in range(6)),), 3
    if cls == "Torus":
        a = (g("r1"), g("r2"))
        c.assume(And(a[0] > 0, a[1] > 0))
        return a, 3
    if cls == "Prism":
        return (g("b"), g("h")), 3
    if cls == "Cylinder":
        a = (g("h"), g("r"))
        c.assume(And(a[0] > 0, a[1] > 0))
        return a, 3


def rotmat(axis, a, dim):
    from ..logic import scos, ssin
    co, si = ex(scos(a)), ex(ssin(a))
    o, z = z3.RealVal(1), z3.RealVal(0)
    if dim == 2:
        return [[co, -si], [si, co]]
    return [[[o, z, z], [z, co, -si], [z, si, co]], [[co, z, si], [z, o, z], [-si, z, co]],
            [[co, -si, z], [si, co, z], [z, z, o]]][axis]


def matvec(m, v):
    return [sum((m[i][k] * v[k] for k in range(1, len(v))), m[i][0] * v[0]) for i in range(len(v))]


def image(x, dim, angles, u, alpha, t):
    """stretch, then rotate (x innermost axis last: Rx Ry Rz), then translate"""
    y = list(x)
    if u is not None:
        s = sum((u[k] * y[k] for k in range(1, dim)), u[0] * y[0])
        y = [y[k] + (alpha - 1) * s * u[k] for k in range(dim)]
    for ax in ((0,) if dim == 2 else (2, 1, 0)):
        if angles[ax] is not None:
            y = matvec(rotmat(ax, angles[ax], dim), y)
    if t is not None:
        y = [y[k] + t[k].e for k in range(dim)]
    return y


def equivariance(cls, dim, rot, st, tr, aslist=False):
    def run(c, X):
        c.canon = True
        w = world()
        sdf = w.module(SDF)
        par, d = params(c, cls)
        angles = []
        for k in range(3):
            if k in rot:
                a = rv(c, f"a{k}")
                c.assume(a.e != 0)
                angles.append(a)
            else:
                angles.append(None)
        kw = {}
        rotate = [a if a is not None else 0.0 for a in angles]
        if rot:
            kw["rotate"] = rotate
        u = alpha = t = None
        vec = None
        if st:
            u = unit(c, dim)
            al = c.fresh("alpha", R)
            c.assume(al > 0)
            c.positive = {al.get_id(): al}
            alpha = al
            vec = [S(al * u[k]) for k in range(dim)]
            if not aslist:
                vec = symnp.asarray(vec)
            kw["stretch"] = vec
        if tr:
            t = [rv(c, f"t{k}") for k in range(dim)]
            kw["translate"] = list(t) if aslist else symnp.asarray(t)
        ver = {k: kw[k].buf.version for k in kw if isinstance(kw[k], symnp.SymArray)}
        shape = getattr(sdf, cls)(*par, **kw)
        base = getattr(sdf, cls)(*par)
        n = iv(c, "n", 0)
        x = arr(c, "X", (n, dim))
        y = symnp.SymArray((n, dim), lambda i, k: S(canon(symnp.select(
            [lambda v=v: S(v) for v in image([ex(x.at(i, j)) for j in range(dim)], dim, angles, u, alpha, t)], k).e)), "f")
        i = idx(c, n)
        yv = y.buf.version
        a = shape.eval(y)
        X.oblige(c, "evaluation leaves the query points unmodified", y.buf.version == yv)
        b = base.eval(x)
        X.oblige(c, "one value per point", shape_is(a, n))
        X.reached(c, "evaluation")
        X.oblige(c, "value at the image equals the value at the point", ex(a[i]) == ex(b[i]))
        for k in ver:
            X.oblige(c, f"the caller's {k} vector is unmodified", kw[k].buf.version == ver[k])
        X.oblige(c, "the caller's rotation list is unmodified",
                 And([ex(p) == ex(q if q is not None else 0.0) for p, q in zip(rotate, angles)]))
    nm = f"{cls} rot={''.join('xyz'[k] for k in rot) or '-'}" + (" stretch" if st else "") + (" translate" if tr else "")
    return H(nm + (" (lists)" if aslist else ""),
             [f"{SDF}:{cls}.__init__", f"{SDF}:{cls}.eval", f"{SDF}:_manipulate", f"{SDF}:_rotate_back",
              f"{SDF}:_scale_back", f"{SDF}:_translate_back", f"{SDF}:_build_stretch", f"{SDF}:_build_rotation",
              f"{SDF}:_build_translation"], run, timeout=30)


def harnesses():
    hs = []
    for cls in ("Disk", "Rectangle"):
        for rot in ((), (0,)):
            for st, tr in itertools.product((0, 1), repeat=2):
                hs.append(equivariance(cls, 2, rot, st, tr))
    rots = [r for k in range(4) for r in itertools.combinations(range(3), k)]
    for rot in rots:
        for st, tr in itertools.product((0, 1), repeat=2):
            hs.append(equivariance("Cube", 3, rot, st, tr))
    for cls in ("Ball", "Torus", "Prism", "Cylinder"):
        hs.append(equivariance(cls, 3, (0, 1, 2), 1, 1))
        hs.append(equivariance(cls, 3, (), 0, 1))
    hs.append(equivariance("Cube", 3, (0, 1, 2), 1, 1, aslist=True))
    hs.append(equivariance("Disk", 2, (0,), 1, 1, aslist=True))
    return hs
