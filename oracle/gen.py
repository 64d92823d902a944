"""observes mesh generation through the triangulation objects it uses"""
import signal

import numpy as np
import util
from SeismicMesh.generation import mesh_generator as mg

quiet = util.quiet


class Rec:
    """stands in for a triangulation class: records points in, vertices and cells out, moves"""

    def __init__(self, real):
        self.real = real
        self.runs = []

    def __call__(self, *a):
        d = Proxy(self.real(*a))
        self.runs.append(d)
        return d

    def events(self):
        return [e for d in self.runs for e in d.ev]

    def count(self, what):
        return sum(1 for e in self.events() if e[0] == what)


class Proxy:
    def __init__(self, d):
        self.d, self.ev = d, []

    def __getattr__(self, n):
        f = getattr(self.d, n)

        def call(*a, **k):
            r = f(*a, **k)
            if n == "insert":
                self.ev.append(("insert", np.array(a[0], float)))
            elif n == "get_finite_vertices":
                self.ev.append(("vertices", np.array(r)))
            elif n == "get_finite_cells":
                self.ev.append(("cells", np.array(r)))
            elif n == "move":
                self.ev.append(("move", np.array(a[0], int), np.array(a[1], float)))
            else:
                self.ev.append((n,))
            return r
        return call


class watch:
    """replaces the two triangulation classes of the generator for the duration"""

    def __enter__(self):
        self.old = mg.DT2, mg.DT3
        self.r2, self.r3 = Rec(mg.DT2), Rec(mg.DT3)
        mg.DT2, mg.DT3 = self.r2, self.r3
        return self

    def __exit__(self, *a):
        mg.DT2, mg.DT3 = self.old

    def rec(self, dim):
        return self.r2 if dim == 2 else self.r3


class Hang(Exception):
    pass


class alarm:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise Hang("does not return")
        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def domain(rng, dim=None):
    """a shape, its dimension and a good h0"""
    import SeismicMesh as sm
    dim = dim or int(rng.choice([2, 2, 3]))
    s = float(rng.choice([1.0, 10.0, 1000.0]))
    if dim == 2:
        k = rng.integers(5)
        h = s * float(rng.uniform(0.12, 0.3))
        if k == 0:
            d = sm.Rectangle((0.0, s, 0.0, s))
        elif k == 1:
            d = sm.Disk([0.3 * s, 0.2 * s], 0.6 * s)
        elif k == 2:
            d = sm.Difference([sm.Rectangle((0.0, 2 * s, 0.0, 2 * s)), sm.Disk([s, s], 0.5 * s)])
        elif k == 3:
            d = sm.Union([sm.Rectangle((0.0, s, 0.0, s)), sm.Disk([s, s], 0.5 * s)])
        else:
            d = sm.Intersection([sm.Rectangle((0.0, s, 0.0, s)), sm.Disk([0.5 * s, 0.5 * s], 0.6 * s)])
    else:
        k = rng.integers(3)
        h = s * float(rng.uniform(0.25, 0.4))
        if k == 0:
            d = sm.Cube((0.0, s, 0.0, s, 0.0, s))
        elif k == 1:
            d = sm.Ball([0.0, 0.0, 0.0], 0.7 * s)
        else:
            d = sm.Difference([sm.Cube((0.0, s, 0.0, s, 0.0, s)), sm.Ball([0.0, 0.0, 0.0], 0.5 * s)])
    return d, dim, h


def sizes_fn(rng, dom, dim, h):
    """scalar or function size, with the keyword it needs"""
    if rng.random() < 0.4:
        return h, {}
    c = np.array([(a + b) / 2 for a, b in zip(dom.bbox[::2], dom.bbox[1::2])])
    L = max(b - a for a, b in zip(dom.bbox[::2], dom.bbox[1::2]))

    def fh(x):
        x = np.stack(x, -1) if isinstance(x, tuple) else np.asarray(x)
        return h * (1 + 1.5 * np.sqrt(((x - c) ** 2).sum(-1)) / L)
    return fh, {"h0": h}
