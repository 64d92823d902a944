"""C07 mesh cleanup"""
from ..hlp import *
from ..run import H
from ..logic import Unsupported
from .C08 import coords, det3, sub

ASSUMPTIONS = ["not all vertices coincide (the snapping length is positive)",
               "the void/character views of rows compare rows by value (sign of zero is removed by adding 0.0)"]


class Done(Exception):
    """the contract of the callee has been shown at its call"""


def close(a, b, s):
    return z3.And(*[z3.And(x - y <= s, y - x <= s) for x, y in zip(a, b)])


def rounding(e):
    """the rounded quotient R and the quotient it rounds, as found in a key"""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == "rint":
            return z3.ToReal(x), x.arg(0)
        todo += x.children()
    return None


def key_near(c, X, name, kk, z, snap):
    r = rounding(kk)
    near = z3.And(kk - z <= snap / 2, z - kk <= snap / 2)
    if r is None:
        X.cut(c, name, near)
        return
    R_, q = r
    X.cut(c, name + " (quotient)", q * snap == z)
    X.cut(c, name + " (key)", kk == R_ * snap)
    h = z3.RealVal("1/2")
    X.lemma(c, name + " (rounding)", [R_, q, snap, z, kk],
            lambda R, q, s, z, k: z3.And(R - q <= h, q - R <= h, s > 0, q * s == z, k == R * s),
            lambda R, q, s, z, k: z3.And(k - z <= s / 2, z - k <= s / 2))
    c.mute = False
    X.derive(c, name, near, using=[z3.Implies(z3.And(R_ - q <= h, q - R_ <= h, snap > 0, q * snap == z,
                                                    kk == R_ * snap), near),
                                   z3.And(R_ - q <= h, q - R_ <= h), snap > 0, q * snap == z, kk == R_ * snap],
             gen=[kk, z, snap, R_, q])
    c.assume(near)


def rows_contract(c, X, p, snap, box):
    """unique_rows as fix_mesh uses it: shown on the real code for the array it is given, then used"""
    nv, dim = p.shape
    v0 = p.buf.version

    def stub(A, return_index=False, return_inverse=False):
        if A.ndim != 2 or not (return_index and return_inverse):
            raise Unsupported("another use of unique_rows")
        if box["prove"] != 1:
            nu = iv(c, "nu", 1)
        else:
            B_, I1, J1 = world().fn(GEO, "unique_rows")(A, True, True)
            nu = B_.shape[0]
            X.oblige(c, "unique rows: sizes", And(shape_is(A, nv, dim), shape_is(I1, nu), shape_is(J1, nv),
                                                  ex(nu) >= 1))
            k, i, j = idx(c, nu, "k"), idx(c, nv), idx(c, nv)
            X.oblige(c, "unique rows: representative is a vertex of its class",
                     And(ex(I1[k]) >= 0, ex(I1[k]) < ex(nv), ex(J1[I1[k]]) == k.e))
            X.oblige(c, "unique rows: class index", And(ex(J1[i]) >= 0, ex(J1[i]) < ex(nu)))
            P, Q = [ex(p.at(i, d)) for d in range(dim)], [ex(p.at(j, d)) for d in range(dim)]
            X.oblige(c, "unique rows: equal vertices are one class",
                     z3.Implies(z3.And(*[x == y for x, y in zip(P, Q)]), ex(J1[i]) == ex(J1[j])))
            r = I1[J1[i]]
            key = [[ex(A.at(q, d)) for d in range(dim)] for q in (i, r)]
            X.cut(c, "unique rows: one class, one key", z3.And(*[x == y for x, y in zip(*key)]))
            for d in range(dim):
                for nm, q, kk in (("vertex", i, key[0]), ("representative", r, key[1])):
                    z = ex(p.at(q, d))
                    key_near(c, X, f"unique rows: the key of the {nm} is within half the snapping length, {d}",
                             kk[d], z, snap)
                X.oblige(c, f"unique rows: classes join vertices within the snapping length, {d}",
                         z3.And(ex(p.at(r, d)) - ex(p.at(i, d)) <= snap, ex(p.at(i, d)) - ex(p.at(r, d)) <= snap))
        nu = iv(c, "nu", 1)
        Bf, If, Jf = (arr(c, "uB", (nu, dim)), arr(c, "uI", (nu,), "i"), arr(c, "uJ", (nv,), "i"))
        s = box["s"]

        def rep(k):
            r = If.at(k)
            c.note(nv, ex(r))
            return z3.And(ex(r) >= 0, ex(r) < ex(nv), ex(Jf.at(r)) == ex(k))

        def cls(i):
            k = Jf.at(i)
            c.note(nu, ex(k))
            return z3.And(ex(k) >= 0, ex(k) < ex(nu), close(pt(p, i), pt(p, If.at(k)), s))
        c.assume_all([nu], rep)
        c.assume_all([nv], cls)
        c.assume_all([nv, nv], lambda i, j: z3.Implies(z3.And(*[x == y for x, y in zip(pt(p, i), pt(p, j))]),
                                                       ex(Jf.at(i)) == ex(Jf.at(j))),
                     skip=lambda i, j: i.get_id() >= j.get_id())
        box["used"] = True
        return Bf, If, Jf
    return stub


def pt(p, i):
    return [ex(p.at(i, d)) for d in range(p.shape[1])]


def elem_contract(c, X, box):
    """unique_row_view as fix_mesh uses it"""
    def stub(data):
        m, k = data.shape
        rd = data.snap()
        D = lambda i: [ex(rd(i, q)) for q in range(k)]
        if box["prove"] == 1:
            raise Done
        if box["prove"]:
            U, cnt = world().fn(GEO, "unique_row_view")(data)
            n = U.shape[0]
            X.oblige(c, "unique elements: width", shape_is(U, n, k))
            a, b, i = idx(c, n), idx(c, n), idx(c, m)
            ra, rb = [[ex(U[v, q]) for q in range(k)] for v in (a, b)]
            X.oblige(c, "unique elements: rows differ", z3.Implies(z3.And(*[x == y for x, y in zip(ra, rb)]),
                                                                   a.e == b.e), rounds=3)
            X.oblige(c, "unique elements: rows of the input", Ex([m], lambda i: z3.And(*[
                x == y for x, y in zip(ra, D(i))])), rounds=3)
            X.oblige(c, "unique elements: every row is kept", Ex([n], lambda j: z3.And(*[
                ex(U[j, q]) == y for q, y in enumerate(D(i))])), rounds=3)
            raise Done
        n = iv(c, "ne", 0)
        V = arr(c, "uT", (n, k), "i")
        src, dst = c.fresh_fn("esrc", I, I), c.fresh_fn("edst", I, I)

        def from_(j):
            r = src(ex(j))
            c.note(m, r)
            return z3.And(r >= 0, r < ex(m), *[ex(V.at(j, q)) == y for q, y in enumerate(D(S(r)))])

        def to(i):
            r = dst(ex(i))
            c.note(n, r)
            return z3.And(r >= 0, r < ex(n), *[ex(V.at(S(r), q)) == y for q, y in enumerate(D(i))])
        c.assume_all([n], from_)
        c.assume_all([m], to)
        c.assume_all([n, n], lambda a, b: z3.Implies(z3.And(*[ex(V.at(a, q)) == ex(V.at(b, q)) for q in range(k)]),
                                                     ex(a) == ex(b)), skip=lambda i, j: i.get_id() >= j.get_id())
        box["used_e"] = True
        return V, arr(c, "ucnt", (n,), "i")
    return stub


def rows(x, dim):
    return [list(x[k * dim:(k + 1) * dim]) for k in range(dim + 1)]


def fix(dim, delete, orient, part):
    def run(c, X):
        X.rounds = 3
        p, t, nv, nt = mesh(c, dim, nt_min=1, nv_min=1)
        v0, v1 = p.buf.version, t.buf.version
        tol = rv(c, "ptol")
        c.assume(tol.e > 0)
        box = {"prove": {"vertex classes": 1, "element rows": 2}.get(part, 0), "s": c.fresh("snap", R)}
        ext = (p.max(0) - p.min(0)).max()
        if box["prove"] == 1:
            sn = ex(ext * tol)
            c.assume(ex(ext) > 0)
            c.assume(sn > 0)
        else:
            sn = None
        c.assume(box["s"] > 0)
        snap = box["s"]
        cap = []

        def vols(p_, t_):
            k, q = p_.snap(), t_.snap()
            v = arr(c, "vol", (t_.shape[0],))
            cap.append((p_, p_.buf.version, k, t_.shape, q, v))
            return v
        st = {f"{GEO}:simp_vol": vols} if orient else {}
        w = world(stubs={**st, f"{GEO}:unique_rows": rows_contract(c, X, p, sn, box),
                         f"{GEO}:unique_row_view": elem_contract(c, X, box)})
        try:
            pn, tn, jx = w.fn(GEO, "fix_mesh")(p, t, ptol=tol, dim=dim, delete_unused=delete,
                                               fix_orientation=orient)
        except Done:
            return
        if box["prove"]:
            raise Unsupported("fix_mesh does not use unique_rows and unique_row_view")
        if orient and len(cap) != 1:
            raise Unsupported("fix_mesh does not use simp_vol")
        n, m = pn.shape[0], tn.shape[0]
        if orient and part not in ("valid", "orientation"):
            # the state before the flip; part "orientation" relates it to the returned one
            p_, v_, k_, sh, q_, _ = cap[0]
            pn, tn = (symnp.SymArray(p_.shape, k_, "f"), symnp.SymArray(sh, q_, "i"))
            n, m = pn.shape[0], tn.shape[0]
        if not (box.get("used") and box.get("used_e")):
            raise Unsupported("fix_mesh does not use unique_rows and unique_row_view")
        if part == "valid":
            X.oblige(c, "table shapes", And(shape_is(pn, n, dim), shape_is(tn, m, dim + 1)))
            e = idx(c, m, "e")
            X.reached(c, "element")
            for k in range(dim + 1):
                v = ex(tn[e, k])
                X.oblige(c, f"index {k} is valid", And(v >= 0, v < ex(n)))
            unmodified(X, c, "the mesh", (p, v0), (t, v1))
        elif part == "vertices":
            a, b = idx(c, n, "a"), idx(c, n, "b")
            X.reached(c, "vertices")
            A, B_ = [[ex(pn[v, d]) for d in range(dim)] for v in (a, b)]
            X.oblige(c, "no two vertices coincide",
                     z3.Implies(z3.And(*[x == y for x, y in zip(A, B_)]), a.e == b.e))
        elif part == "elements":
            e, f = idx(c, m, "e"), idx(c, m, "e")
            E, F = [[ex(tn[v, k]) for k in range(dim + 1)] for v in (e, f)]
            X.reached(c, "elements")
            import itertools
            for q, s in enumerate(itertools.permutations(range(dim + 1))):
                X.oblige(c, f"no two elements have the same vertices (order {s})",
                         z3.Implies(z3.And(*[E[k] == F[s[k]] for k in range(dim + 1)]), e.e == f.e))
        elif part == "orientation":
            e = idx(c, m, "e")
            X.reached(c, "element")
            p_, v_, k_, sh, q_, vol = cap[0]
            X.oblige(c, "flipping leaves the vertices", And(p_ is pn, p_.buf.version == v_,
                                                           shape_is(tn, *sh)))
            flip = c.decide(ex(vol[e]) < 0)
            old = [ex(q_(e, k)) for k in range(dim + 1)]
            new = [ex(tn[e, k]) for k in range(dim + 1)]
            perm = []
            for k in range(dim + 1):
                d = 1 - k if flip and k < 2 else k
                o = next((o for o in [d] + list(range(dim + 1)) if o not in perm and c.entails(new[k] == old[o])), d)
                perm.append(o)
                X.cut(c, f"flipping: entry {k} is entry {o} of the element", new[k] == old[o])
            X.oblige(c, "flipping: the entries are permuted", sorted(perm) == list(range(dim + 1)))
            det = lambda Q: (lambda u: u[0][0] * u[1][1] - u[0][1] * u[1][0] if dim == 2 else det3(*u))(
                [sub(Q[k], Q[0]) for k in range(1, dim + 1)])
            X.lemma(c, "the signed volume after flipping is not negative",
                    [S(z3.RealVal(0))] * (1 + dim * (dim + 1)),
                    lambda v, *x: z3.And((v < 0 if flip else v >= 0),
                                         (2 if dim == 2 else 6) * v == det(rows(x, dim))),
                    lambda v, *x: det([rows(x, dim)[o] for o in perm]) >= 0)
        elif part == "used":
            a = idx(c, n, "a")
            X.reached(c, "vertex")
            for d in range(dim):
                ex(pn[a, d])
            X.oblige(c, "every vertex belongs to an element",
                     Ex([m], lambda e: z3.Or(*[ex(tn[e, k]) == a.e for k in range(dim + 1)])))
        elif part == "kept":
            e = idx(c, m, "e")
            X.reached(c, "element")
            Q = [[ex(pn[tn[e, k], d]) for d in range(dim)] for k in range(dim + 1)]

            def ok(f):
                P = [coords(p, t, f, k) for k in range(dim + 1)]
                return z3.And(*[z3.Or(*[close(q, x, snap) for x in P]) for q in Q],
                              *[z3.Or(*[close(q, x, snap) for q in Q]) for x in P])
            X.oblige(c, "every element is an input element up to snapping", Ex([nt], ok))
        elif part == "represented":
            f = idx(c, nt, "f")
            X.reached(c, "element")
            P = [coords(p, t, f, k) for k in range(dim + 1)]

            def ok(e):
                Q = [[ex(pn[tn[e, k], d]) for d in range(dim)] for k in range(dim + 1)]
                return z3.And(*[z3.Or(*[close(q, x, snap) for x in P]) for q in Q],
                              *[z3.Or(*[close(q, x, snap) for q in Q]) for x in P])
            X.oblige(c, "every input element is represented", Ex([m], ok))
    return H(f"fix_mesh dim={dim} delete={delete} orient={orient}: {part}",
             [f"{GEO}:fix_mesh", f"{GEO}:unique_rows", f"{GEO}:unique_row_view", f"{GEO}:simp_vol"], run)


def harnesses():
    out = []
    for dim in (2, 3):
        for delete in (False, True):
            for orient in (True, False):
                for part in ("vertex classes", "element rows", "valid", "vertices", "elements", "kept", "represented"):
                    out.append(fix(dim, delete, orient, part))
                if orient:
                    out.append(fix(dim, delete, orient, "orientation"))
                if delete:
                    out.append(fix(dim, delete, orient, "used"))
    return out
