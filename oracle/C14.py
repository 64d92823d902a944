import math

import numpy as np
import sizing_ref as sr
import util
import SeismicMesh as sm
from SeismicMesh.sizing import mesh_size_function as ms

BOUNDS = "grids up to 40 cells per axis in 2D and 3D, all pad styles, widths from below one cell to several domain widths"
quiet = util.quiet


def ref_pad(a, pad, style, mx):
    if style == "edge":
        return np.pad(a, pad, "edge")
    if style == "constant":
        r = np.full([s + p + q for s, (p, q) in zip(a.shape, pad)], mx, float)
        r[tuple(slice(p, p + s) for s, (p, q) in zip(a.shape, pad))] = a
        return r
    return None


def nearest(a, pad):
    return np.pad(a, pad, "edge")


def run(o):
    fn = util.private(ms, "_build_domain_pad", 4)

    def mk(rng, dim):
        sh = tuple(int(x) for x in rng.integers(2, 14 if dim == 3 else 30, dim))
        bbox = []
        for s in sh:
            d = float(rng.choice([10.0, 25.0, 100.0, 33.3]))
            lo = float(rng.choice([0.0, -1000.0, 500.0]))
            bbox += [lo, lo + d * s]
        return sh, tuple(bbox)

    def width(rng, sh, bbox):
        d = [(bbox[2 * i + 1] - bbox[2 * i]) / s for i, s in enumerate(sh)]
        return float(rng.choice([0.4 * min(d), min(d) * 1.5, max(d) * 2.3, max(d) * 7.7, 1000.25, (bbox[1] - bbox[0]) * 2.05]))

    def direct(rng, k):
        if fn is None:
            return
        dim = 2 + k % 2
        sh, bbox = mk(rng, dim)
        w = width(rng, sh, bbox)
        style = ["edge", "constant", "linear_ramp"][int(rng.integers(3))]
        c, v = rng.uniform(10, 500, sh), rng.uniform(1500, 6000, sh)
        c0, v0 = c.copy(), v.copy()
        inp = {"cell": c, "vp": v, "bbox": bbox, "pad": w, "style": style}
        C, V, B = quiet(fn, c, v, bbox, {"domain_pad": w, "pad_style": style})
        o.check(np.array_equal(c, c0) and np.array_equal(v, v0), "input grids modified", inp)
        want = [bbox[0] - w, bbox[1]]
        for i in range(1, dim):
            want += [bbox[2 * i] - w, bbox[2 * i + 1] + w]
        o.check(isinstance(B, tuple) and np.allclose(B, want, rtol=0, atol=1e-6), f"box {B}, want {want}", inp)
        d = [(bbox[2 * i + 1] - bbox[2 * i]) / s for i, s in enumerate(sh)]
        n = [int(w / x) for x in d]
        pad = [(n[0], 0)] + [(x, x) for x in n[1:]]
        for nm, a, A in (("size", c, C), ("velocity", v, V)):
            A = np.asarray(A)
            o.check(A.shape == tuple(s + p + q for s, (p, q) in zip(sh, pad)), f"{nm} grid has shape {A.shape}", inp)
            core = A[tuple(slice(p, p + s) for s, (p, q) in zip(sh, pad))]
            o.check(np.array_equal(core, a), f"{nm}: values of the original grid changed", inp)
            r = ref_pad(a, pad, style, a.max())
            if r is not None:
                o.check(np.allclose(A, r, rtol=1e-12), f"{nm}: {style} padding", inp)
            else:
                near = nearest(a, pad)
                o.check(np.all(A >= near - 1e-9 * a.max()) and np.all(A <= a.max() * (1 + 1e-12)), f"{nm}: ramp outside [nearest, max]", inp)
                for ax, (p, q) in enumerate(pad):
                    if p > 0:
                        o.check(np.allclose(np.take(A, 0, axis=ax), a.max()), f"{nm}: ramp does not reach the maximum at the low side of axis {ax}", inp)
                    if q > 0:
                        o.check(np.allclose(np.take(A, -1, axis=ax), a.max()), f"{nm}: ramp does not reach the maximum at the high side of axis {ax}", inp)
        C, V, B = quiet(fn, c, v, bbox, {"domain_pad": 0.0, "pad_style": style})
        o.check(np.array_equal(C, c) and np.array_equal(V, v) and tuple(B) == bbox, "no padding: unchanged", inp)
        o.raises(lambda: quiet(fn, c, v, bbox, {"domain_pad": -w, "pad_style": style}), (ValueError,), "negative width accepted", inp)
        for bad in ("nope", "wrap", "", None, "Edge", "mean", "reflect"):
            o.raises(lambda: quiet(fn, c, v, bbox, {"domain_pad": 3 * max(d), "pad_style": bad}), (ValueError,), f"style {bad} accepted", inp)
    o.group("direct", direct, o.n(150, 1500), limit=40)

    def public(rng, k):
        dim = 2 + k % 2
        sh, bbox = mk(rng, dim)
        w = width(rng, sh, bbox)
        style = [None, "edge", "constant", "linear_ramp"][int(rng.integers(4))]
        v = rng.uniform(1500, 6000, sh)
        kw = dict(velocity_data=v, nz=sh[0], nx=sh[1], hmin=10.0, hmax=1e5, wl=5, freq=2.0, domain_pad=w)
        if dim == 3:
            kw["ny"] = sh[2]
        if style:
            kw["pad_style"] = style
        ef = quiet(sm.get_sizing_function_from_segy, "x", bbox, **kw)
        want = [bbox[0] - w, bbox[1]]
        for i in range(1, dim):
            want += [bbox[2 * i] - w, bbox[2 * i + 1] + w]
        inp = {"v": v, "bbox": bbox, **{a: b for a, b in kw.items() if a != "velocity_data"}}
        o.check(np.allclose(ef.bbox, want, rtol=0, atol=1e-6), f"box {ef.bbox}, want {want}", inp)
        h = v / 10.0
        d = [(bbox[2 * i + 1] - bbox[2 * i]) / s for i, s in enumerate(sh)]
        n = [int(w / x) for x in d]
        pad = [(n[0], 0)] + [(x, x) for x in n[1:]]
        tot = [s + p + q for s, (p, q) in zip(sh, pad)]
        import C12
        H = C12.grid_values(ef, tot, want)
        core = H[tuple(slice(p, p + s) for s, (p, q) in zip(sh, pad))]
        o.check(np.allclose(core, h, rtol=0, atol=2e-3 * h.max()), "sizes in the interior of the padded grid", inp)
        near = nearest(h, pad)
        if style in (None, "edge"):
            o.check(np.allclose(H, near, rtol=0, atol=2e-3 * h.max()), "edge padding does not repeat the nearest value", inp)
        elif style == "constant":
            o.check(np.allclose(H, ref_pad(h, pad, "constant", h.max()), rtol=0, atol=2e-3 * h.max()), "constant padding", inp)
        else:
            o.check(np.all(H >= near - 3e-3 * h.max()) and np.all(H <= h.max() * 1.003), "ramp outside [nearest, max]", inp)
    o.group("public", public, o.n(60, 500), limit=40)
