import math

import numpy as np
import gen
import meshes as me
import util
import SeismicMesh as sm
from SeismicMesh.generation import mesh_generator as mg
from C09 import EDG, angle, tets

BOUNDS = "random point sets and generated meshes, several bounds, up to 40 iterations observed; batches up to 5000 tetrahedra"
quiet = util.quiet


def angles(p, t):
    """(n,6) dihedral angles"""
    q = p[t]
    out = np.empty((len(t), 6))
    for k, (a, b) in enumerate(EDG):
        c, d = [x for x in range(4) if x not in (a, b)]
        ax = q[:, b] - q[:, a]
        with np.errstate(all="ignore"):
            ax = ax / np.sqrt((ax ** 2).sum(1))[:, None]
            u, v = q[:, c] - q[:, a], q[:, d] - q[:, a]
            u, v = u - ax * (u * ax).sum(1)[:, None], v - ax * (v * ax).sum(1)[:, None]
            out[:, k] = np.arctan2(np.sqrt((np.cross(u, v) ** 2).sum(1)), (u * v).sum(1))
    return out


def classify(p, t, lo, hi, m=1e-7):
    """surely bad, possibly bad"""
    if len(t) == 0:
        return np.zeros(0, bool), np.zeros(0, bool)
    a = angles(p, t)
    sure = ((a < lo - m) | (a > hi + m)).any(1)
    maybe = ((a < lo + m) | (a > hi - m)).any(1) | ~np.isfinite(a).all(1)
    return sure, maybe | sure


def run(o):
    szs = [s for s in util.sizes(me.GF, cap=5000) if s]
    fn = util.private(mg, "_calc_dihedral_angles", 4)

    def find(rng, k):
        if fn is None:
            return
        n = szs[k] if k < len(szs) else int(rng.integers(1, 60))
        q = tets(rng, min(n, 400), k)
        p = q.reshape(-1, 3)
        t = np.arange(len(p)).reshape(-1, 4)
        if n > len(t):
            t = t[rng.integers(0, len(t), n)]
        if rng.random() < 0.4:
            p = rng.uniform(-1, 1, (8, 3))
            t = me.chain(rng, me.distinct_rows(rng, n, 8, 4))
        # well defined: no face of zero area
        ok = np.isfinite(angles(p, t)).all(1)
        A = p[t]
        for a, b, c in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)):
            u, v = A[:, b] - A[:, a], A[:, c] - A[:, a]
            ok &= np.sqrt((np.cross(u, v) ** 2).sum(1)) > 0.02 * np.sqrt((u ** 2).sum(1) * (v ** 2).sum(1))
        t = t[ok]
        if len(t) == 0:
            return
        lo, hi = math.radians(float(rng.choice([0, 5, 10, 30, 45]))), math.radians(float(rng.choice([100, 140, 165, 175, 180])))
        if rng.random() < 0.2:
            lo = 0.0
        inp = {"p": p, "t": t, "lo": lo, "hi": hi}
        ele, ix = fn(p, t, lo, hi)
        ele = np.asarray(ele).ravel().tolist()
        o.check(len(set(ele)) == len(ele), "an element is reported twice", inp)
        sure, maybe = classify(p, t, lo, hi, m=3e-6)
        miss = [e for e in np.nonzero(sure)[0].tolist() if e not in set(ele)]
        extra = [e for e in ele if not (0 <= e < len(t)) or not maybe[e]]
        o.check(not miss, f"elements {miss[:5]} with an angle out of bounds are not found", inp)
        o.check(not extra, f"elements {extra[:5]} within the bounds are reported", inp)
    o.group("detection", find, o.n(120, 1200), limit=50)

    def remove(rng, k):
        kind = k % 3
        s = float(rng.choice([1.0, 1000.0]))
        if kind == 0:
            dom = sm.Cube((0.0, s, 0.0, s, 0.0, s))
        elif kind == 1:
            dom = sm.Ball([0.0, 0.0, 0.0], s)
        else:
            dom = sm.Difference([sm.Cube((0.0, s, 0.0, s, 0.0, s)), sm.Ball([0.0, 0.0, 0.0], 0.5 * s)])
        h = s * float(rng.uniform(0.22, 0.4))
        it = int(rng.integers(1, 6))
        p, t = quiet(sm.generate_mesh, dom, h, max_iter=it, verbose=0, seed=int(rng.integers(100)))
        if kind == 0 and rng.random() < 0.5:      # lattice: exactly flat elements
            g = np.arange(0, 1.001, 0.25) * s
            p = np.array(np.meshgrid(g, g, g)).reshape(3, -1).T.copy()
        lo = float(rng.choice([5.0, 10.0, 15.0, 2.0]))
        hi = float(rng.choice([180.0, 170.0, 160.0, 175.0]))
        mx = int(rng.choice([10, 40, 25]))
        if rng.random() < 0.15:
            lo, hi = 1.0, 179.5
        p0 = p.copy()
        inp = {"points": p0, "lo": lo, "hi": hi, "max_iter": mx, "kind": kind, "h": h, "scale": s}
        with gen.watch() as w, gen.alarm(60):
            q, u = quiet(sm.sliver_removal, points=p, domain=dom, edge_length=h, verbose=0, max_iter=mx,
                         min_dh_angle_bound=lo, max_dh_angle_bound=hi)
            ev = w.r3.events()
        L, H = math.radians(lo), math.radians(hi)
        rounds = [i for i, e in enumerate(ev) if e[0] == "cells"]
        o.check(1 <= len(rounds) <= mx, f"{len(rounds)} triangulations for {mx} iterations", inp)
        if len(rounds) < mx:
            sure, _ = classify(np.asarray(q), np.asarray(u), L, H, m=1e-6)
            o.check(not sure.any(), f"ends after {len(rounds)} of {mx} iterations with {int(sure.sum())} elements out of bounds", inp)
        geps = 0.1 * h
        for i in rounds:
            V = [e[1] for e in ev[:i] if e[0] == "vertices"][-1]
            T = ev[i][1]
            nx = next((e for e in ev[i:] if e[0] == "move"), None)
            if nx is None:
                continue
            if any(e[0] == "cells" for e in ev[i + 1:ev.index(nx)] if e is not nx) if False else False:
                continue
            d = np.asarray(dom.eval(V[T].sum(1) / 4))
            inside, sure_in = d < -geps + 1e-9 * s, d < -geps - 1e-9 * s
            sure, maybe = classify(V, T, L, H, m=1e-6)
            ids = set(nx[1].tolist())
            allow = set(T[maybe & inside].ravel().tolist())
            o.check(ids <= allow, f"vertices {sorted(ids - allow)[:5]} of elements within the bounds are moved", inp)
            vol = np.abs(np.linalg.det(V[T][:, 1:] - V[T][:, :1]))
            need = sure & sure_in & (vol > 1e-9 * h ** 3)
            for r in T[need]:
                o.check(bool(ids & set(r.tolist())), f"element {r.tolist()} out of bounds is not perturbed", inp)
    o.group("removal", remove, o.n(16, 120), limit=110)
