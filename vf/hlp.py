"""small helpers for the sidecar contracts"""
import z3

from . import symnp, logic
from .logic import *      # noqa
from .logic import S, ctx, ex, I, R, B, And, Or, Not, All, Ex, Imp, Iff
from .pyload import World
from . import shims

SDF = "SeismicMesh.geometry.signed_distance_functions"
GEO = "SeismicMesh.geometry.utils"
GEN = "SeismicMesh.generation.mesh_generator"
GU = "SeismicMesh.generation.utils"
SIZ = "SeismicMesh.sizing.mesh_size_function"
MIG = "SeismicMesh.migration.migration"
DEC = "SeismicMesh.decomp.blocker"


def rv(c, name):
    return S(c.fresh(name, R))


def iv(c, name, lo=None):
    v = S(c.fresh(name, I))
    if lo is not None:
        c.assume(v.e >= lo)
    return v


def arr(c, name, shape, kind="f"):
    """arbitrary array: an uninterpreted function of its indices"""
    f = c.fresh_fn(name, *([I] * len(shape)), symnp.SORT[kind])
    a = symnp.SymArray(shape, lambda *i: S(f(*[ex(x) for x in i])), kind)
    a.uf = f
    return a


def idx(c, n, name="i"):
    """arbitrary valid index"""
    i = S(c.fresh(name, I))
    c.assume(And(i.e >= 0, i.e < ex(n)))
    c.note(n, i.e)
    return i


def mesh(c, dim, name="", nt_min=0, nv_min=0):
    """vertices (nv,dim) reals, elements (nt,dim+1) valid indices"""
    nv, nt = iv(c, "nv" + name, nv_min), iv(c, "nt" + name, nt_min)
    p = arr(c, "P" + name, (nv, dim))
    t = arr(c, "T" + name, (nt, dim + 1), "i")
    c.assume_all([nt, dim + 1], lambda e, k: z3.And(ex(t.at(e, k)) >= 0, ex(t.at(e, k)) < ex(nv)))
    return p, t, nv, nt


def world(stubs=None, loops=None, **ext):
    return World(stubs=stubs, ext=shims.ext(**ext), loops=loops)


def shape_is(a, *dims):
    """the array has this shape (python bool or formula)"""
    if a.ndim != len(dims):
        return False
    fs = []
    for x, d in zip(a.shape, dims):
        r = symnp.dim_eq(x, d)
        if r is False:
            return False
        if r is None:
            fs.append(ex(x) == ex(d))
    return And(*fs) if fs else True


def unmodified(X, c, name, *arrays):
    for k, (a, v) in enumerate(arrays):
        X.oblige(c, f"{name} is not modified", a.buf.version == v)


def resolve(c, e):
    """drop branches excluded by the current assumptions"""
    e = ex(e)
    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        g, a, b = e.children()
        if c.implied(g):
            e = a
        elif c.implied(z3.Not(g)):
            e = b
        else:
            break
    return e


def tidy(c, e):
    """decide the integer case distinctions inside a term that the current assumptions settle"""
    e = z3.simplify(ex(e))
    memo = {}

    def walk(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            g, a, b = x.children()
            g = walk(g)
            r = None
            if logic.no_real(g):
                if c.implied(g):
                    r = walk(a)
                elif c.implied(z3.Not(g)):
                    r = walk(b)
            if r is None:
                r = z3.If(g, walk(a), walk(b))
        elif z3.is_app(x) and x.decl().eq(logic.Sqrt) and getattr(c, "canon", False):
            r = ex(logic.ssqrt(S(walk(x.arg(0)))))
        elif z3.is_app(x) and x.num_args():
            r = logic.rebuild(x, [walk(y) for y in x.children()])
        else:
            r = x
        memo[k] = (x, r)
        return r
    r = walk(e)
    return r if getattr(c, "canon", False) else z3.simplify(r)


def bag(c, name, kind="i"):
    """arbitrary 1-D array with its membership predicate (used where only membership matters)"""
    n = iv(c, "n" + name, 0)
    a = arr(c, name, (n,), kind)
    sort = symnp.SORT[kind]
    a.mem, a.pos = c.fresh_fn(name + "_has", sort, B), c.fresh_fn(name + "_at", sort, I)
    a.bagv = a.buf.version
    return a


def member(c, a, x):
    """formula: x occurs in the array (an array built by appending to a bag)"""
    x = ex(x)
    n = a.shape[0]
    if hasattr(a, "mem") and a.buf.version == a.bagv:
        q = a.pos(x)
        c.note(n, q)
        c.fact(z3.Implies(a.mem(x), z3.And(q >= 0, q < ex(n), ex(a.at(S(q))) == x)))
        return a.mem(x)
    if hasattr(a, "appended"):
        b, v = a.appended
        m = v.shape[0]
        if symnp.is_num(m):
            return z3.Or(member(c, b, x), *[ex(v.at(k)) == x for k in range(m)])
    if symnp.is_num(n):
        return z3.Or(*[ex(a.at(k)) == x for k in range(n)])
    raise logic.Unsupported("membership of another kind of array")


class Pairs:
    """a list of pairs of which only membership is observed"""
    f = logic.Timed()

    def __init__(self, c, f=None):
        self.c = c
        self.f = f if f is not None else c.fresh_fn("reported", I, I, B)

    def append(self, x):
        if not isinstance(x, (tuple, list)) or len(x) != 2:
            raise logic.Unsupported("another kind of report")
        a, b, f = ex(x[0]), ex(x[1]), self.f
        self.f = lambda u, v: z3.Or(f(u, v), z3.And(u == a, v == b))

    def has(self, a, b):
        return self.f(ex(a), ex(b))


def reported(P, a, b):
    if isinstance(P, Pairs):
        return P.has(a, b)
    if type(P) is list:
        return z3.Or(*[z3.And(ex(x) == ex(a), ex(y) == ex(b)) for x, y in P])
    raise logic.Unsupported("another kind of report")


def alike(X, c, a, b, what):
    """the two arrays have the same shape and entries"""
    a, b = symnp.asarray(a), symnp.asarray(b)
    X.oblige(c, what + " (shape)", shape_is(a, *b.shape))
    if a is b:
        return
    ix, inside = [], []
    for n in b.shape:
        q = c.fresh("q", I)
        c.note(n, q)
        ix.append(S(q))
        inside.append(And(q >= 0, q < ex(n)))
    X.oblige(c, what, Imp(And(*inside), ex(a.at(*ix)) == ex(b.at(*ix))))
