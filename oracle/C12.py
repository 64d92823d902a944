import numpy as np
import sizing_ref as sr
import util
import SeismicMesh as sm

BOUNDS = "2D and 3D grids up to 300 cells per side, velocities 1e-2..1e5, all option combinations"
quiet = util.quiet


def grid_values(ef, shape, bbox):
    vecs = [np.linspace(bbox[2 * i], bbox[2 * i + 1], n, dtype=np.float32).astype(float) for i, n in enumerate(shape)]
    g = np.meshgrid(*vecs, indexing="ij")
    return np.asarray(ef.eval(tuple(g)))


def run(o):
    G = sm.get_sizing_function_from_segy

    def vals(rng, k):
        dim = 2 + int(rng.random() < 0.35)
        n = None
        if k % 25 == 24:
            n = (int(rng.integers(100, 300)), int(rng.integers(50, 130))) if dim == 2 else (30, 20, 25)
        v = sr.velocity(rng, dim, n)
        bbox = sr.bbox_of(rng, dim)
        hmin = float(rng.choice([150.0, 20.0, 1.0, 500.0, rng.uniform(1, 1000)]))
        hmax = hmin * float(rng.choice([1.0, 2.0, 10.0, 1e3, 1e5]))
        kw = dict(hmin=hmin, hmax=hmax)
        wl = freq = grad = dt = 0
        freq = 2.0
        stencil, cr, so = 10.0, 1.0, 1
        mode = k % 8
        if mode in (1, 3, 5, 7):
            wl = kw["wl"] = float(rng.choice([1, 5, 10, 0.5, 3])) if rng.random() < 0.7 else int(rng.integers(1, 12))
            if rng.random() < 0.7:
                freq = kw["freq"] = float(rng.choice([0.01, 0.1, 1.0, 5.0, 20.0]))
        if mode in (2, 3, 6, 7):
            grad = kw["grad"] = float(rng.choice([50.0, 200.0, 5e4, hmin]))
            r = rng.random()
            if r < 0.35:
                stencil = kw["stencil_size"] = int(rng.integers(1, 9))
            elif r < 0.6:
                stencil = kw["stencil_size"] = tuple(int(x) for x in rng.integers(1, 9, dim))
        if mode in (4, 5, 6, 7):
            dt = kw["dt"] = float(rng.choice([1e-3, 0.01, 0.1, 1.0]))
            if rng.random() < 0.6:
                cr = kw["cr_max"] = float(rng.choice([0.1, 0.5, 1.0, 2.0]))
            if rng.random() < 0.6:
                so = kw["space_order"] = int(rng.integers(1, 6))
        if rng.random() < 0.2:
            kw.setdefault("dt", 0.0)
            kw["cr_max"] = cr = float(rng.choice([0.0, 0.3]))
        v0 = v.copy()
        kw2 = dict(kw)
        sh = {"nz": v.shape[0], "nx": v.shape[1]}
        if dim == 3:
            sh["ny"] = v.shape[2]
        items = list({**kw, **sh, "velocity_data": v}.items())
        items = [items[i] for i in rng.permutation(len(items))]
        inp = {"v": v, "bbox": bbox, **{a: b for a, b in kw2.items()}}
        ef = quiet(G, "x.bin" if k % 2 else "none.segy", bbox, **dict(items))
        o.check(np.array_equal(v, v0), "velocity array modified", inp)
        o.check(tuple(ef.bbox) == tuple(bbox), f"box {ef.bbox}", inp)
        o.check(ef.hmin == hmin, "hmin of the size function", inp)
        if min(v.shape) < 2:
            return
        vv = np.where(v < 1e-3, 1500.0, v)
        with np.errstate(all="ignore"):
            e = sr.expected(vv, hmin, hmax, wl, freq, grad, stencil, dt, cr, so)
        h = grid_values(ef, v.shape, bbox)
        o.check(h.shape == e.shape, "shape", inp)
        tol = 2e-3 if grad else 1e-6
        lim = np.abs(e) * 1e-6 + np.ptp(e) * 2e-5
        if grad:
            # variance differences of nearly homogeneous windows are rounding noise
            if np.ptp(v) == 0 or np.ptp(v) / v.max() < 1e-6:
                return
            lim = lim + np.abs(e) * 1e-4
        bad = np.argwhere(~(np.abs(h - e) <= lim))
        o.check(len(bad) == 0, f"size at grid point {bad[:1].tolist()}: {h[tuple(bad[0])] if len(bad) else 0}, expected {e[tuple(bad[0])] if len(bad) else 0} (mode {mode})", inp)
        if dt and cr:
            o.check(np.all(vv * dt * so / h <= cr * (1 + 1e-3)), "Courant number above its cap", inp)
        if mode == 0:
            o.check(np.allclose(h, hmin, rtol=1e-6), "nothing requested: hmin everywhere", inp)
    o.group("values", vals, o.n(320, 3000), limit=80)

    def homog(rng, k):
        dim = 2 + k % 2
        v = np.full((6,) * dim, float(rng.uniform(1500, 5000)))
        kw = {"nz": 6, "nx": 6, "ny": 6, "grad": 50.0, "hmin": 20.0, "hmax": 1e4, "velocity_data": v}
        h = grid_values(quiet(G, "x", sr.bbox_of(rng, dim), **kw), v.shape, (0, 1) * dim)
        o.check(np.all(np.isfinite(h)), "gradient sizing of a homogeneous model is not finite", {"v": v})
    o.group("homogeneous", homog, 4)

    def reject(rng, k):
        dim = 2 + k % 2
        v = sr.velocity(rng, dim) + 1400
        sh = {"nz": v.shape[0], "nx": v.shape[1]}
        if dim == 3:
            sh["ny"] = v.shape[2]
        base = dict(velocity_data=v, hmin=100.0, hmax=1e4, **sh)
        bb = sr.bbox_of(rng, dim)
        x = float(rng.choice([1.0, 0.5, 1e-6, 1e-9, 1000.0, rng.random()]))
        for extra in ({"wl": -x}, {"wl": -x, "grad": 10.0}, {"wl": 5, "freq": -x}, {"grad": -x}, {"grad": -x, "wl": 5}, {"dt": -x},
                      {"dt": 0.1, "cr_max": -x}, {"dt": 0.1, "space_order": -1}, {"dt": 0.1, "space_order": 0.5}, {"grade": -x},
                      {"domain_pad": -x}, {"unknown_option": 1}, {"hMin": 5.0}, {"pad_style": "nope", "domain_pad": 5000.0}):
            o.raises(lambda: quiet(G, "x", bb, **{**base, **extra}), (ValueError,), f"{extra} was accepted", {**extra})
        for b in ((0.0, 1.0), (0.0, 1.0, 0.0), (0.0,) * 8, ()):
            o.raises(lambda: quiet(G, "x", b, **base), (ValueError,), f"box of length {len(b)} was accepted", {})
    o.group("rejections", reject, o.n(8, 60), limit=30)
