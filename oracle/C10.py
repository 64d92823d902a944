import contextlib
import io

import numpy as np
import meshes as me
import util
from fractions import Fraction as Fr
from SeismicMesh.geometry import utils as gu

BOUNDS = "integer coordinates up to 2^10 (exact reference), random real points away from the boundary; meshes up to 2000 elements"


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = 0
    for j in range(len(m)):
        s += (-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
    return s


def bary(v, e, dim):
    q = [[Fr(int(x)) if float(x) == int(x) else Fr(float(x)) for x in e[i * dim:(i + 1) * dim]] for i in range(dim + 1)]
    v = [Fr(float(x)) for x in v]
    d = det([r + [Fr(1)] for r in q])
    return [det([(v if i == k else q[k]) + [Fr(1)] for k in range(dim + 1)]) / d for i in range(dim + 1)] if d else None


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def run(o):
    def loc(rng, k):
        dim = 2 + k % 2
        f = gu.vertex_in_entity2 if dim == 2 else gu.vertex_in_entity3
        hi = int(rng.choice([2, 4, 8, 64, 1000]))
        e = rng.integers(-hi, hi + 1, dim * (dim + 1)) * 1.0
        q = e.reshape(dim + 1, dim)
        m = rng.integers(7)
        if m == 0:
            v = rng.integers(-hi, hi + 1, dim) * 1.0
        elif m == 1:
            v = q[rng.integers(dim + 1)].copy()
        elif m == 2:
            i, j = rng.choice(dim + 1, 2, replace=False)
            v = (q[i] + q[j]) / 2
        elif m == 3:
            w = rng.random(dim + 1)
            v = (w / w.sum()) @ q
        elif m == 4:
            w = rng.random(dim + 1)
            w[rng.integers(dim + 1)] *= -0.3
            v = (w / w.sum()) @ q
        elif m == 5:
            v = 2 * q[0] - q[1]
        else:
            v = q.sum(0) / (dim + 1)
        b = bary(v, e, dim)
        if b is None:
            return
        exact = np.all(v * 2 == np.round(v * 2)) and hi <= 64
        if not exact and min(min(abs(x), abs(1 - x)) for x in b) < 1e-9:
            return
        if not exact and min(abs(x) for x in b) < 1e-7:
            return
        want = all(0 <= x <= 1 for x in b) if dim == 2 else all(x > 0 for x in b)
        if dim == 2 and want and min(b) == 0 and not exact:
            return
        on = min(abs(x) for x in b) == 0
        if dim == 2 and on and want:
            # a, b, c are rounded: c == 1-a-b may be -1e-16; test with exactly representable coordinates only
            d = det([[Fr(float(x)) for x in r] + [Fr(1)] for r in q.tolist()])
            n = abs(d)
            if n & (n - 1) if isinstance(n, int) else (n.denominator != 1 or (int(n) & (int(n) - 1))):
                return
        got = bool(f(tuple(v), tuple(e)))
        o.check(got == want, f"vertex_in_entity{dim}({v.tolist()}, {e.tolist()}) is {got}, barycentric {[float(x) for x in b]}", {"v": v, "e": e})
        pm = rng.permutation(dim + 1)
        got = bool(f(tuple(v), tuple(q[pm].ravel())))
        if not on or dim == 3:
            o.check(got == want, "point location depends on the vertex order", {"v": v, "e": e})
    o.group("location", loc, o.n(2500, 40000), limit=50)

    def over(rng, k):
        dim = 2 + k % 2
        n = int(rng.integers(dim + 2, 25))
        p, t = util.rand_mesh(rng, dim, n)
        p = np.round(p * 1024)
        t = t[np.abs(util.vol(p, t)) > 100]
        kind = rng.integers(4)
        if len(t) and kind:
            # overlapping elements: random rows added, elements repeated, rows over unrelated vertices
            for _ in range(int(rng.integers(1, 5))):
                r = rng.choice(len(p), dim + 1, replace=False)
                t = np.vstack((t, r))
            t = t[np.abs(util.vol(p, t)) > 100]
            if kind == 2 and len(t):
                t = np.vstack((t, t[int(rng.integers(len(t)))][rng.permutation(dim + 1)]))
        if len(t) == 0:
            return
        t = t[rng.permutation(len(t))]
        inp = {"p": p, "t": t, "dim": dim}
        p0, t0 = p.copy(), t.copy()
        kw = {"dim": dim} if dim == 3 or k % 4 else {}
        got = quiet(gu.do_any_overlap, p, t, **kw)
        o.check(np.array_equal(p, p0) and np.array_equal(t, t0), "inputs modified", inp)
        got = {(int(a), int(b)) for a, b in got}
        must, may = set(), set()
        for i in range(len(t)):
            c = p[t[i]].mean(0)
            for j in range(len(t)):
                if i == j or not set(t[i].tolist()) & set(t[j].tolist()):
                    continue
                b = bary(c, p[t[j]].ravel(), dim)
                if min(b) > 1e-9:
                    must.add((i, j))
                if min(b) > -1e-9:
                    may.add((i, j))
        o.check(must <= got, f"overlap {sorted(must - got)[:3]} not reported", inp)
        o.check(got <= may, f"{sorted(got - may)[:3]} reported but do not overlap", inp)
        if kind == 0:
            o.check(not got or may, "valid mesh reported as overlapping", inp)
    o.group("overlap", over, o.n(120, 1500), limit=60)

    def larger(rng, k):
        """the planted pair is the only one and sits anywhere in a larger mesh"""
        dim = 2
        nx = [20, 33][k % 2]
        p, t = util.grid2(nx, nx, rng)
        t = t[rng.permutation(len(t))]
        o.check(not quiet(gu.do_any_overlap, p, t), "valid grid reported", {"nx": nx})
        i = int(rng.choice([0, len(t) - 1, 1000 % len(t), int(rng.integers(len(t)))]))
        t2 = np.vstack((t, t[i][[1, 2, 0]]))
        got = {(int(a), int(b)) for a, b in quiet(gu.do_any_overlap, p, t2)}
        o.check(got == {(i, len(t)), (len(t), i)}, f"duplicate of element {i} of {len(t)}: reported {sorted(got)[:4]}", {"nx": nx, "i": i})
    o.group("larger", larger, o.n(4, 30))
