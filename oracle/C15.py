import itertools
import os
import shutil
import tempfile

import numpy as np
import sizing_ref as sr
import util
import SeismicMesh as sm
from SeismicMesh.sizing import mesh_size_function as ms

BOUNDS = "grids up to 40 samples per axis, all axis permutations, both orders, byte orders, precisions; water anywhere"
quiet = util.quiet


def run(o):
    tmp = tempfile.mkdtemp(prefix="vf_c15_")
    try:
        _run(o, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run(o, tmp):
    combos = list(itertools.product(itertools.permutations(range(3)), "CF", ("little", "big"), ("float32", "float64")))

    def binary(rng, k):
        ao, order, bo, dt = combos[k % len(combos)]
        sh = tuple(int(x) for x in rng.integers(1, 9, 3))
        if k >= len(combos) and rng.random() < 0.2:
            sh = tuple(int(x) for x in rng.choice([1, 2, 17, 40], 3))
        F = rng.uniform(1500, 6000, sh).astype(dt)
        inv = np.argsort(ao)
        A = np.transpose(F, inv)
        f = os.path.join(tmp, "v.bin")
        A.flatten(order).astype(np.dtype(dt).newbyteorder(">" if bo == "big" else "<")).tofile(f)
        inp = {"model": F, "axes_order": ao, "sort": order, "byte_order": bo, "dtype": dt}
        form = rng.integers(3)
        aoa = ao if form == 0 else list(ao) if form == 1 else np.array(ao)
        V, nz, nx, ny = quiet(sm.read_velocity_model, filename=f, nz=sh[0], nx=sh[1], ny=sh[2], byte_order=bo, axes_order=aoa, axes_order_sort=order, dtype=dt)
        o.check((nz, nx, ny) == sh, f"sizes {nz, nx, ny}", inp)
        o.check(np.array_equal(np.asarray(V, float), F[::-1].astype(float)), "samples are not in (z, x, y) order with the depth axis flipped", inp)
        if min(sh) > 1:
            # the same through the sizing function: wavelength sizing reproduces the velocity
            bbox = tuple(x for s in sh for x in (0.0, 1000.0))
            ef = quiet(sm.get_sizing_function_from_segy, f, bbox, nz=sh[0], nx=sh[1], ny=sh[2], byte_order=bo, axes_order=aoa, axes_order_sort=order, dtype=dt,
                       wl=1, freq=1.0, hmin=1.0, hmax=1e9)
            import C12
            h = C12.grid_values(ef, sh, bbox)
            o.check(np.allclose(h, F[::-1], rtol=0, atol=5.0), "interpolant does not reproduce the velocities at the grid points", inp)
        for bad in ("middle", None, "byte_order", "BIG"):
            o.raises(lambda: quiet(sm.read_velocity_model, filename=f, nz=sh[0], nx=sh[1], ny=sh[2], byte_order=bad, axes_order=ao, axes_order_sort=order, dtype=dt),
                     (ValueError,), f"byte order {bad} accepted", inp)
        for miss in ("nz", "nx", "ny"):
            a = dict(nz=sh[0], nx=sh[1], ny=sh[2])
            a[miss] = None
            o.raises(lambda: quiet(sm.read_velocity_model, filename=f, byte_order=bo, axes_order=ao, axes_order_sort=order, dtype=dt, **a), (ValueError,), f"missing {miss} accepted", inp)
    o.group("binary", binary, o.n(96, 600), limit=60)

    def segy(rng, k):
        import segyio
        nz, nx = int(rng.integers(2, 30)), int(rng.integers(2, 30))
        F = rng.uniform(1500, 6000, (nz, nx)).astype(np.float32)
        f = os.path.join(tmp, "v.segy")
        spec = segyio.spec()
        spec.format = 5
        spec.samples = np.arange(nz) * 4.0
        spec.tracecount = nx
        with segyio.create(f, spec) as s:
            for i in range(nx):
                s.trace[i] = F[:, i]
        V, a, b, c = quiet(sm.read_velocity_model, f)
        o.check((a, b) == (nz, nx) and np.array_equal(V, F[::-1]), "SEG-y samples differ", {"F": F})
    o.group("segy", segy, o.n(10, 60))

    def units(rng, k):
        dim = 2 + k % 2
        sh = tuple(int(x) for x in rng.integers(2, 9, dim))
        v = rng.uniform(1500, 6000, sh)
        unit = ["m-s", "km-s", "ft-s"][int(rng.integers(3))]
        s = {"m-s": 1.0, "km-s": 1000.0, "ft-s": 0.30}[unit]
        v = v / s
        water = None
        kind = rng.integers(5)
        m = np.zeros(sh, bool)
        if kind == 1:
            m[0] = True
        elif kind == 2:
            m[tuple(int(rng.integers(0, x)) for x in sh)] = True
        elif kind == 3:
            m = rng.random(sh) < 0.4
        elif kind == 4:
            m[-1] = True
        v[m] = 0.0
        kw = {}
        wv = 1500.0
        if rng.random() < 0.6:
            wv = kw["vp_water"] = float(rng.choice([1300.5, 1450.0, 1500.0, 1799.0]))
        if unit != "m-s" or rng.random() < 0.5:
            kw["units"] = unit
        v0 = v.copy()
        bbox = tuple(x for q in sh for x in (0.0, 1000.0))
        n = dict(nz=sh[0], nx=sh[1])
        if dim == 3:
            n["ny"] = sh[2]
        if rng.random() < 0.3:
            v = np.asfortranarray(v)
        ro = rng.random() < 0.3
        if ro:
            v.flags.writeable = False
        ef = quiet(sm.get_sizing_function_from_segy, "x", bbox, velocity_data=v, wl=1, freq=1.0, hmin=1e-6, hmax=1e12, **n, **kw)
        inp = {"v": v0, "unit": unit, **kw}
        o.check(np.array_equal(v, v0), "the caller's velocity array was modified", inp)
        e = v0 * s
        e[m] = wv
        import C12
        h = C12.grid_values(ef, sh, bbox)
        tol = 5.0 if unit != "ft-s" else 0.02 * e.max() + 5
        o.check(np.allclose(h[m], wv, rtol=0, atol=5.0), "a water sample did not receive the water velocity", inp)
        if unit == "ft-s":
            r = h[~m] / v0[~m]
            o.check(r.size == 0 or (np.ptp(r) <= 2e-3 * r.max() and 0.29 <= r.min() and r.max() <= 0.31), "feet are not converted by one factor", inp)
        else:
            o.check(np.allclose(h, e, rtol=0, atol=5.0), f"velocities differ from the model in m/s (units {unit})", inp)
        if m.any():
            for bad in (None, 1000.0, 2000.0, -5.0, 1299.0, 1801.0):
                o.raises(lambda: quiet(sm.get_sizing_function_from_segy, "x", bbox, velocity_data=v, **n, **{**kw, "vp_water": bad}), (ValueError,), f"vp_water={bad} accepted", inp)
    def boxes(rng, k):
        """the interpolant on grids with equal numbers of samples and boxes that share limits"""
        dim = 2 + k % 2
        c = [float(x) for x in rng.choice([0.0, -1000.0, 500.0, 2000.0], 2)]
        m = [int(x) for x in rng.integers(2, 6, 2)]
        sh = tuple(m[int(q)] for q in rng.integers(0, 2, dim))
        bbox = ()
        for i in range(dim):
            lo = c[int(rng.integers(2))]
            bbox += (lo, lo + float(rng.choice([1000.0, 2000.0, 2500.0])))
        v = rng.uniform(1500, 6000, sh)
        f = ms._build_sizing_function(v, v, bbox)
        g = np.meshgrid(*[np.linspace(bbox[2 * i], bbox[2 * i + 1], s) for i, s in enumerate(sh)], indexing="ij")
        o.check(np.allclose(f(tuple(g)), v, rtol=1e-3), "interpolant does not reproduce the grid values at the grid points", {"v": v, "bbox": bbox})
    o.group("boxes", boxes, o.n(60, 600), limit=30)
    o.group("units and water", units, o.n(120, 1200), limit=40)
