import numpy as np
import gen
import util
import SeismicMesh as sm
from SeismicMesh.generation import mesh_generator as mg

BOUNDS = "2D and 3D domains up to a few hundred vertices, iteration limits 1..60, all option names, invalid values"
quiet = util.quiet


def run(o):
    lim = [1, 2, 3, 4, 5, 7, 10, 11, 17, 25, 26, 50, 51, 60]

    def count(rng, k):
        dim = 2 if k % 4 else 3
        d, dim, h = gen.domain(rng, dim)
        m = lim[k % len(lim)] if dim == 2 else int(rng.choice([1, 2, 3, 5, 8, 11]))
        if k % len(lim) in (11, 13) and dim == 2:
            h *= 1.3
        f, kw = gen.sizes_fn(rng, d, dim, h)
        if k == 5 or rng.random() < 0.1:
            mm = {}
            m = 50
        else:
            mm = {"max_iter": m if rng.random() < 0.8 else float(m) if False else m}
        if rng.random() < 0.3:
            kw["verbose"] = int(rng.integers(0, 3))
        if rng.random() < 0.3:
            kw["mesh_improvement"] = bool(rng.integers(2))
        if rng.random() < 0.2:
            kw["delta_t"] = float(rng.choice([0.1, 0.2, 0.3]))
        if rng.random() < 0.2:
            kw["seed"] = int(rng.integers(0, 99))
        inp = {"domain": type(d).__name__, "bbox": d.bbox, "h": h, **mm, **{a: repr(b) for a, b in kw.items()}}
        with gen.watch() as w, gen.alarm(60):
            try:
                p, t = quiet(sm.generate_mesh, d, f, **mm, **kw)
            except gen.Hang:
                o.check(False, f"mesh generation with max_iter {m} does not return", inp)
        n = w.rec(dim).count("cells")
        o.check(n == m, f"max_iter {m}: {n} triangulations", inp)
        o.check(len(p) > 0 and len(t) > 0 and t.shape[1] == dim + 1 and t.max() < len(p), "no mesh returned", inp)
    o.group("iterations", count, o.n(56, 400), limit=90)

    def sliver(rng, k):
        d, dim, h = gen.domain(rng, 3)
        with gen.alarm(60):
            p, t = quiet(sm.generate_mesh, d, h, max_iter=int(rng.integers(1, 4)), verbose=0)
        m = [1, 2, 3, 5, 9, 20][k % 6]
        kw = {"max_iter": m, "min_dh_angle_bound": float(rng.choice([0.0, 5.0, 10.0, 25.0, 60.0]))}
        if rng.random() < 0.3:
            kw["gamma"] = 0.9
        if rng.random() < 0.3:
            kw["preserve"] = True
        inp = {"domain": type(d).__name__, "bbox": d.bbox, "h": h, **kw}
        with gen.watch() as w, gen.alarm(60):
            try:
                q, s = quiet(sm.sliver_removal, p, d, h, **kw)
            except gen.Hang:
                o.check(False, f"sliver removal with max_iter {m} does not return", inp)
        n = w.rec(3).count("cells")
        o.check(1 <= n <= m, f"sliver removal with max_iter {m}: {n} triangulations", inp)
        o.check(len(q) > 0 and s.shape[1] == 4 and s.max() < len(q), "no mesh returned", inp)
    o.group("sliver iterations", sliver, o.n(18, 150), limit=60)

    def bad(o, what, fn):
        try:
            with gen.alarm(15):
                quiet(fn)
        except gen.Hang:
            o.check(False, f"{what}: does not return", None)
        except (ValueError, TypeError, KeyError, AssertionError, Exception):
            return
        o.check(False, f"{what}: accepted", None)

    def reject(rng, k):
        d2, _, h2 = gen.domain(rng, 2)
        d3, _, h3 = gen.domain(rng, 3)
        p3 = None
        base = {"max_iter": 2, "verbose": 0}
        for m in (0, -1, -2, -50, -10 ** 6, -0.5, 0.0):
            bad(o, f"generate_mesh max_iter={m}", lambda: sm.generate_mesh(d2, h2, max_iter=m, verbose=0))
            bad(o, f"generate_mesh 3D max_iter={m}", lambda: sm.generate_mesh(d3, h3, max_iter=m, verbose=0))
        pts = np.array([[x, y, z] for x in (0, .5, 1) for y in (0, .5, 1) for z in (0, .5, 1)]) * 1.0 + rng.random((27, 3)) * 0.01
        c = sm.Cube((0.0, 1.0, 0.0, 1.0, 0.0, 1.0))
        for m in (0, -1, -7, 0.0):
            bad(o, f"sliver_removal max_iter={m}", lambda: sm.sliver_removal(pts, c, 0.5, max_iter=m, min_dh_angle_bound=80.0, verbose=0))
        fh = lambda x: np.full(len(x), h2)      # noqa
        for h in (0, 0.0, -1.0, -h2, -1e-12, -1):
            bad(o, f"h0={h} (function)", lambda: sm.generate_mesh(d2, fh, h0=h, **base))
            bad(o, f"scalar size {h}", lambda: sm.generate_mesh(d2, h, **base))
            bad(o, f"sliver_removal h0={h}", lambda: sm.sliver_removal(pts, c, lambda x: np.full(len(x), .5), h0=h, **base))
        bad(o, "h0 missing", lambda: sm.generate_mesh(d2, fh, **base))
        for opt in ("maxiter", "maxIter", "Max_iter", "iter", "h", "h_min", "fix", "pfixs", "improvement", "bogus", "comm2", "Verbose", "H0", "seeds"):
            for val in (1, None, False, 0, "", [], 0.5):
                bad(o, f"unknown option {opt}={val!r}", lambda: sm.generate_mesh(d2, h2, **{**base, opt: val}))
                bad(o, f"unknown option {opt}={val!r} (sliver)", lambda: sm.sliver_removal(pts, c, .5, **{**base, opt: val}))
        for dom in (None, 5, 3.0, "disk", [1, 2], (0.0, 1.0, 0.0, 1.0), np.zeros(4), {}):
            bad(o, f"domain {dom!r}", lambda: sm.generate_mesh(dom, h2, bbox=(0.0, 1.0, 0.0, 1.0), **base))
        for e in (None, [1.0], (1.0, 2.0), np.array([0.1, 0.2]), {}):
            bad(o, f"size {e!r}", lambda: sm.generate_mesh(d2, e, h0=0.1, **base))
        fd = lambda p: np.sqrt((p ** 2).sum(1)) - 1.0     # noqa
        for b in ((-1, 1, -1, 1), (-1.0, 1.0, -1.0, 1), (0, 1.0, -1.0, 1.0), [-1.0, 1.0, -1.0, 1.0], np.array([-1.0, 1.0, -1.0, 1.0])):
            bad(o, f"bbox {b!r}", lambda: sm.generate_mesh(fd, 0.5, bbox=b, **base))
        bad(o, "callable domain without bbox", lambda: sm.generate_mesh(fd, 0.5, **base))
        for v in (-1, -3):
            bad(o, f"verbose {v}", lambda: sm.generate_mesh(d2, h2, max_iter=2, verbose=v))
        bad(o, "sliver removal of 2D points", lambda: sm.sliver_removal(pts[:, :2], d2, .5, **base))
    o.group("rejections", reject, o.n(2, 8), limit=90)

    def options(rng, k):
        """every documented option is accepted and has its effect"""
        d = sm.Rectangle((0.0, 1.0, 0.0, 1.0))
        h = 0.2
        base = {"max_iter": 3, "verbose": 0}
        a = quiet(sm.generate_mesh, d, h, **base)
        for opt in ({"seed": 3}, {"perform_checks": True}, {"pfix": [[0.31, 0.44]]}, {"axis": 0}, {"delta_t": 0.1}, {"geps_mult": 0.2}, {"mesh_improvement": False},
                    {"r0m_is_h0": True}, {"subdomains": [sm.Disk([0.5, 0.5], 0.2)]}, {"points": rng.random((40, 2))}):
            with gen.watch() as w:
                p, t = quiet(sm.generate_mesh, d, h, **base, **opt)
            o.check(w.r2.count("cells") == 3 and len(t) > 0, f"option {opt}", None)
        fd = lambda p: np.sqrt((p ** 2).sum(1)) - 1.0     # noqa
        p, t = quiet(sm.generate_mesh, fd, 0.3, bbox=(-1.0, 1.0, -1.0, 1.0), **base)
        o.check(len(t) > 0, "callable domain", None)
    o.group("options", options, 2)
