"""Mechanical extraction of the real Python source.

Every run reads the modules of /repo from disk, rewrites the syntax tree only as
listed below and executes the result against the contract library:

  * `for`/`while` loops of a function become a closure over the loop body that is
    handed to the loop rule (`vf.loops`): loops over sequences of known length are
    executed element by element, the others need an invariant (sidecar contract).
  * single-generator comprehensions become a call to the comprehension rule.
  * imports are resolved to the contract library (numpy, scipy, mpi4py, the C++
    extensions) or to the other modules of /repo, loaded the same way.
  * builtins such as len/min/range/isinstance accept symbolic values.

Nothing else is dropped or changed; decorators, classes, closures, default
arguments, exceptions run as they are.
"""
import ast
import builtins as B
import copy as _copy
import functools
import hashlib
import os
import types

import z3

from . import logic, symnp
from .logic import S, Unsupported, ctx, is_num, ex, boolx, num, real

REPO = os.environ.get("VF_REPO", "/repo")


# ------------------------------------------------------------------ transform
class Names(ast.NodeVisitor):
    """names bound in a function body, not descending into nested scopes"""

    def __init__(self):
        self.bound, self.globals_, self.nonlocals = set(), set(), set()

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals_.update(n.names)

    def visit_Nonlocal(self, n):
        self.nonlocals.update(n.names)


def bound_names(body):
    v = Names()
    for s in body:
        v.visit(s)
    return v


class Ctl(ast.NodeTransformer):
    """break / continue / return of one loop body -> returned signals"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_For(self, n):       # only untransformed native loops remain
        self.depth += 1
        n = self.generic_visit(n)
        self.depth -= 1
        return n

    visit_While = visit_For

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant("break")), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        if getattr(n, "_vc", False):
            return n
        t = ast.Tuple([ast.Constant("return"), n.value or ast.Constant(None)], ast.Load())
        return ast.copy_location(ast.Return(t), n)


def is_report(s):
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
        return False
    f = s.value.func
    return (isinstance(f, ast.Name) and f.id == "print") or (
        isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging"))


def vc_fmt(text, args):
    """formatted messages: symbolic values are not rendered"""
    a = args if isinstance(args, tuple) else (args,)
    if any(isinstance(x, (S, symnp.SymArray)) for x in a):
        return text
    return text % args


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.count = {}
        self.uid = 0

    # scopes
    def visit_ClassDef(self, n):
        self.fn.append((n.name, None))
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_FunctionDef(self, n):
        names = bound_names(n.body)
        args = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        for a in (n.args.vararg, n.args.kwarg):
            if a:
                args.append(a.arg)
        loc = (names.bound | set(args)) - names.globals_ - names.nonlocals
        self.fn.append((n.name, loc))
        n.body = self.block(n.body)
        n.args = self.visit(n.args)
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        q = self.qual()
        self.fn.pop()
        if self.fn and self.fn[-1][1] is not None:
            # a nested function may be replaced by its contract
            h = ast.parse(f"{n.name} = _vc_nested({self.mod + ':' + q!r}, {n.name})").body[0]
            for x in ast.walk(h):
                ast.copy_location(x, n)
            return [n, h]
        return n

    def visit_AnnAssign(self, n):
        return self.generic_visit(n)

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def qual(self):
        return ".".join(f for f, _ in self.fn)

    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.Call(ast.Name("_vc_fmt", ast.Load()), [n.left, n.right], [])
        return n

    def visit_If(self, n):
        """a branch that only prints is not a case distinction"""
        n = self.generic_visit(n)
        if not n.orelse and all(isinstance(s, ast.Pass) or is_report(s) for s in n.body):
            n.test = ast.Call(ast.Name("_vc_quiet", ast.Load()), [n.test], [])
        return n

    # loops
    def visit_For(self, n):
        return self.loop(n)

    def visit_While(self, n):
        return self.loop(n)

    def loop(self, n):
        if not self.fn or self.fn[-1][1] is None or n.orelse:
            return self.generic_visit(n)
        q = self.qual()
        k = self.count.get(q, 0)
        self.count[q] = k + 1
        self.uid += 1
        u = self.uid
        loc = sorted(x for x in self.fn[-1][1] if not x.startswith("_vc_"))
        mut = sorted(self.mutated(n))
        is_for = isinstance(n, ast.For)
        if is_for:
            it = self.visit(n.iter)
            head = [ast.Assign([n.target], ast.Name("_vc_item", ast.Load()))]
        else:
            test = self.visit(n.test)
            head = []
        body = head + self.block(n.body)
        body = [Ctl().visit(s) for s in body]
        nl = [ast.Nonlocal(loc)] if loc else []
        fdef = ast.FunctionDef(
            f"_vc_body{u}", ast.arguments([], [ast.arg("_vc_item")] if is_for else [], None, [], [], None, []),
            nl + body, [], None, type_params=[])
        getb = [ast.parse("_vc_d = {}").body[0]]
        for v in loc:
            getb += ast.parse(f"try:\n    _vc_d[{v!r}] = {v}\nexcept NameError:\n    pass").body
        getb += ast.parse("return _vc_d").body
        gdef = ast.FunctionDef(f"_vc_get{u}", ast.arguments([], [], None, [], [], None, []), getb, [], None,
                               type_params=[])
        setb = list(nl)
        for v in loc:
            setb += ast.parse(f"if {v!r} in _vc_d:\n    {v} = _vc_d[{v!r}]").body
        setb += [ast.Pass()]
        sdef = ast.FunctionDef(f"_vc_set{u}", ast.arguments([], [ast.arg("_vc_d")], None, [], [], None, []), setb,
                               [], None, type_params=[])
        ident = ast.Constant((self.mod, q, k, n.lineno, tuple(mut)))
        common = [ast.Name(f"_vc_body{u}", ast.Load()), ast.Name(f"_vc_get{u}", ast.Load()),
                  ast.Name(f"_vc_set{u}", ast.Load())]
        if is_for:
            call = ast.Call(ast.Name("_vc_for", ast.Load()), [ident, it] + common, [])
        else:
            lam = ast.Lambda(ast.arguments([], [], None, [], [], None, []), test)
            call = ast.Call(ast.Name("_vc_while", ast.Load()), [ident, lam] + common, [])
        res = f"_vc_r{u}"
        decl = []
        # make sure every name is a local of the enclosing function
        dead = ast.If(ast.Constant(False), [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(None)) for v in loc] or
                      [ast.Pass()], [])
        ret = ast.parse(f"if {res} is not None:\n    return {res}[1]").body[0]
        out = [dead, fdef, gdef, sdef, ast.Assign([ast.Name(res, ast.Store())], call), ret]
        for s in out:
            ast.copy_location(s, n)
            ast.fix_missing_locations(s)
        return decl + out

    @staticmethod
    def mutated(n):
        """names assigned, or whose contents are stored to, in the loop"""
        m = set(bound_names([n]).bound)
        for s in ast.walk(n):
            t = None
            if isinstance(s, (ast.Subscript, ast.Attribute)) and isinstance(s.ctx, (ast.Store, ast.Del)):
                t = s.value
            elif isinstance(s, ast.AugAssign):
                t = s.target
            elif isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in (
                    "append", "extend", "insert", "pop", "sort", "fill", "update", "add", "remove", "push_back",
                    "emplace_back", "pop_back", "clear", "resize", "assign"):
                t = s.func.value
            while isinstance(t, (ast.Subscript, ast.Attribute)):
                t = t.value
            if isinstance(t, ast.Name):
                m.add(t.id)
        return m

    # comprehensions
    def comp(self, n, kind, elts):
        n = self.generic_visit(n)
        if len(n.generators) != 1 or not self.simple(n.generators[0].target) or self.in_class():
            return n
        g = n.generators[0]
        elts = [n.elt] if kind != "dict" else [ast.Tuple([n.key, n.value], ast.Load())]
        lam = self.lam(g.target, elts[0])
        cond = ast.Constant(None)
        if g.ifs:
            t = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            cond = self.lam(g.target, t)
        call = ast.Call(ast.Name("_vc_comp", ast.Load()), [ast.Constant(kind), g.iter, lam, cond], [])
        return ast.fix_missing_locations(ast.copy_location(call, n))

    def in_class(self):
        return bool(self.fn) and self.fn[-1][1] is None

    @staticmethod
    def simple(t):
        return isinstance(t, ast.Name) or (isinstance(t, (ast.Tuple, ast.List)) and
                                           all(isinstance(e, ast.Name) for e in t.elts))

    @staticmethod
    def lam(t, e):
        if isinstance(t, ast.Name):
            return ast.Lambda(ast.arguments([], [ast.arg(t.id)], None, [], [], None, []), e)
        inner = ast.Lambda(ast.arguments([], [ast.arg(x.id) for x in t.elts], None, [], [], None, []), e)
        return ast.Call(ast.Name("_vc_unpacked", ast.Load()), [ast.Constant(len(t.elts)), inner], [])

    def visit_ListComp(self, n):
        return self.comp(n, "list", None)

    def visit_GeneratorExp(self, n):
        return self.comp(n, "gen", None)

    def visit_SetComp(self, n):
        return self.comp(n, "set", None)


def unpacked(n, f):
    def g(item):
        if isinstance(item, (symnp.SymArray, symnp.SymList)):
            item = [item[k] for k in range(n)]
        item = tuple(item)
        if len(item) != n:
            raise ValueError("cannot unpack")
        return f(*item)
    return g


# ------------------------------------------------------------------ sequences
class SymRange:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step
        if step == 1:
            n = symnp.clamp0(hi - lo)
        elif step == -1:
            n = symnp.clamp0(lo - hi)
        else:
            raise Unsupported("range step")
        self.n = symnp.norm_dim(n)

    def get(self, i):
        return self.lo + i if self.step == 1 else self.lo - i

    def __iter__(self):
        if is_num(self.n):
            for i in range(self.n):
                yield self.get(i)
            return
        raise Unsupported("iteration over a symbolic range outside a contracted loop")

    def __len__(self):
        if is_num(self.n):
            return self.n
        raise Unsupported("len")

    def __getitem__(self, k):
        return self.get(k)


def as_seq(it):
    """(length, item(i)) or None when the length is concrete"""
    if isinstance(it, (list, tuple, str, dict, set, frozenset, range)):
        return None
    if isinstance(it, symnp.SymArray):
        if is_num(it.shape[0]):
            return None
        return it.shape[0], lambda i: symnp.item_of(it, i if is_num(i) else S(ex(i)))
    if isinstance(it, (symnp.SymList, SymRange, ZipSeq)):
        if is_num(it.n):
            return None
        return it.n, it.get
    return None


class ZipSeq:
    def __init__(self, parts, wrap=None):
        ns = []
        gets = []
        for p in parts:
            s = as_seq(p)
            if s is None:
                p = list(p)
                ns.append(len(p))
                gets.append(lambda i, p=p: symnp.select([lambda v=v: v for v in p], i))
            else:
                ns.append(s[0])
                gets.append(s[1])
        n = ns[0]
        for m in ns[1:]:
            if symnp.dims_equal(n, m) is not True:
                n = symnp.norm_dim(logic.smin(n, m))
        self.n = n
        self.get = lambda i: tuple(g(i) for g in gets)

    def __iter__(self):
        if is_num(self.n):
            for i in range(self.n):
                yield self.get(i)
            return
        raise Unsupported("iteration over a symbolic zip outside a contracted loop")


def f_len(x):
    if isinstance(x, symnp.SymArray):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, (symnp.SymList, SymRange)):
        return x.n
    if isinstance(x, symnp.Matrix):
        return x.shape[0]
    return len(x)


def f_range(*a):
    a = [f_int(x) if isinstance(x, (S, symnp.SymArray)) else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if isinstance(lo, float) or isinstance(hi, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    r = SymRange(lo, hi, st)
    if is_num(r.n):
        return [r.get(i) for i in range(r.n)]
    return r


def f_zip(*parts):
    if any(as_seq(p) is not None for p in parts):
        return ZipSeq(parts)
    return list(zip(*parts))


def f_enumerate(x, start=0):
    s = as_seq(x)
    if s is not None:
        z = ZipSeq([x])
        return symnp.SymList(z.n, lambda i: (i + start, s[1](i)))
    return list(enumerate(x, start))


def f_minmax(is_min):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            a = a[0]
            if isinstance(a, symnp.SymArray) or as_seq(a) is not None:
                if isinstance(a, SymRange) or isinstance(a, ZipSeq):
                    raise Unsupported("min/max of symbolic sequence")
                return (symnp.amin if is_min else symnp.amax)(symnp.asarray(a))
            a = list(a)
            if not a:
                raise ValueError("min() arg is an empty sequence")
        if key is not None:
            return (min if is_min else max)(*a, key=key) if len(a) > 1 else a[0]
        r = a[0]
        for x in a[1:]:
            if isinstance(r, S) or isinstance(x, S):
                r = (logic.smin if is_min else logic.smax)(r, x)
            else:
                r = (min if is_min else max)(r, x)
        return r
    return f


def f_int(x=0, *a):
    if isinstance(x, symnp.SymArray):
        x = x.item()
    if isinstance(x, S):
        return symnp.cast_scalar(x, "i")
    if isinstance(x, logic.Fraction):
        return int(x)
    return int(x, *a)


def f_float(x=0.0):
    if isinstance(x, symnp.SymArray):
        x = x.item()
    if isinstance(x, S):
        return symnp.cast_scalar(x, "f")
    if isinstance(x, logic.Fraction):
        return x
    return float(x)


def f_abs(x):
    return abs(x)


def f_sum(x, start=0):
    if isinstance(x, symnp.SymArray) and not is_num(x.shape[0]):
        return symnp.sum(x, 0)
    if as_seq(x) is not None:
        return symnp.sum(symnp.asarray(x), 0)
    r = start
    first = is_num(start) and start == 0
    for v in x:
        r = v if first else r + v
        first = False
    return r


def f_any(x):
    s = as_seq(x)
    if s is not None:
        return symnp.any(symnp.asarray(x).astype(bool))
    for v in x:
        if v:
            return True
    return False


def f_all(x):
    s = as_seq(x)
    if s is not None:
        return symnp.all(symnp.asarray(x).astype(bool))
    for v in x:
        if not v:
            return False
    return True


def f_sorted(x, key=None, reverse=False):
    if isinstance(x, symnp.SymArray):
        r = symnp.sort(x)
        return r[::-1] if reverse else r
    x = list(x)
    if any(isinstance(v, S) for v in x):
        r = symnp.sort(symnp.asarray(x)).tolist()
        return r[::-1] if reverse else r
    return sorted(x, key=key, reverse=reverse)


def f_list(x=()):
    s = as_seq(x)
    if s is not None:
        return symnp.SymList(s[0], s[1])
    return list(x)


def f_tuple(x=()):
    if as_seq(x) is not None:
        raise Unsupported("tuple of symbolic length")
    return tuple(x)


def f_bool(x=False):
    if isinstance(x, S):
        return S(boolx(x))
    return bool(x)


def f_round(x, n=None):
    if isinstance(x, S):
        return symnp.around(x, n or 0)
    return round(x, n) if n is not None else round(x)


def f_print(*a, **k):
    return None


def f_map(f, *seqs):
    if any(as_seq(s) is not None for s in seqs):
        z = ZipSeq(seqs)
        return symnp.SymList(z.n, lambda i: f(*z.get(i)))
    return [f(*t) for t in zip(*seqs)]


def f_reversed(x):
    s = as_seq(x)
    if s is not None:
        return symnp.SymList(s[0], lambda i: s[1](s[0] - 1 - i))
    return list(x)[::-1]


def f_filter(f, x):
    return comp("list", x, lambda v: v, (lambda v: v) if f is None else f)


def f_set(x=()):
    if as_seq(x) is not None:
        raise Unsupported("set of symbolic length")
    x = list(x)
    if any(isinstance(v, S) for v in x):
        raise Unsupported("set of symbolic values")
    return set(x)


TYPE_OF = {}


def f_isinstance(x, t):
    if isinstance(t, tuple):
        for u in t:
            if f_isinstance(x, u):
                return True
        return False
    t = TYPE_OF.get(id(t), t)
    if isinstance(x, S):
        k = x.kind
        if t is int:
            return k in "ib" and getattr(x, "pyint", True)
        if t is float:
            return k == "f"
        if t is bool:
            return k == "b"
        if isinstance(t, type) and issubclass(S, t) and t is not object:
            return True
        return t is object or getattr(t, "_kind", None) == k
    if isinstance(x, logic.Fraction):
        return t in (float, object)
    if isinstance(x, symnp.SymList):
        return t in (list, object)
    try:
        return isinstance(x, t)
    except TypeError:
        return False


def f_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, S):
        return {"i": int, "f": float, "b": bool}[x.kind]
    if isinstance(x, symnp.SymList):
        return list
    return type(x)


def f_callable(x):
    return callable(x) and not isinstance(x, (S, symnp.SymArray))


def bind(f):
    """the function with the present values of the variables it captures (it is evaluated later)"""
    if f is None or not f.__closure__:
        return f
    cells = []
    for x in f.__closure__:
        try:
            cells.append(types.CellType(x.cell_contents))
        except ValueError:
            cells.append(x)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def comp(kind, it, f, cond):
    s = as_seq(it)
    if s is None:
        out = []
        for x in it:
            if cond is not None:
                c = cond(x)
                if not c:
                    continue
            out.append(f(x))
        return set(out) if kind == "set" else out
    n, get = s
    f, cond = bind(f), bind(cond)
    if kind == "set":
        raise Unsupported("set comprehension of symbolic length")
    if cond is None:
        return symnp.SymList(n, _memo(lambda i: f(get(i))))
    probe = cond(get(S(ctx().fresh("cprobe", logic.I))))
    if isinstance(probe, bool) or is_num(probe):
        # the condition does not depend on the element
        return symnp.SymList(n, _memo(lambda i: f(get(i)))) if probe else []
    m, src = symnp.filter_index(n, lambda i: cond(get(i)), "comp")[:2]
    return symnp.SymList(m, _memo(lambda i: f(get(src(i)))))


def _memo(f):
    memo = {}

    def g(i):
        i = symnp.norm_index(i)
        k = i if is_num(i) else ex(i).get_id()
        if k not in memo:
            if not is_num(i):
                ctx().hold(ex(i))
            memo[k] = f(i)
        return memo[k]
    return g


# ------------------------------------------------------------------ library modules
class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)
        self.__path__ = []


class MathMod(Mod):
    pass


def _m(f):
    return f


import math as _math

MATH = Mod("math")
for _k in dir(_math):
    if not _k.startswith("__"):
        setattr(MATH, _k, getattr(_math, _k))


def _lift(name, sym):
    real_f = getattr(_math, name)

    def f(x, *a):
        if isinstance(x, symnp.SymArray):
            x = x.item()
        return sym(x) if isinstance(x, S) else real_f(x, *a)
    setattr(MATH, name, f)


_lift("sqrt", logic.ssqrt)
_lift("cos", logic.scos)
_lift("sin", logic.ssin)
_lift("acos", logic.sacos)
_lift("fabs", abs)
_lift("floor", lambda x: symnp.cast_scalar(symnp.sfloor(x), "i"))
MATH.pow = lambda a, b: a ** b


def f_reduce(f, seq, *init):
    seq = list(seq)
    return functools.reduce(f, seq, *init)


FUNCTOOLS = Mod("functools")
FUNCTOOLS.__dict__.update({k: getattr(functools, k) for k in dir(functools) if not k.startswith("__")})


class Missing:
    """a library object without a contract: any use leaves the verified subset"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._n} (no contract)")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self._n + "." + k)

    def __setattr__(self, k, v):
        pass

    def __mro_entries__(self, bases):
        return (object,)


class AnyMod(Mod):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Missing(self.__name__ + "." + k)


WARNINGS = Mod("warnings", warn=lambda *a, **k: None)


class World:
    """one set of loaded modules; `stubs` maps 'module:function' to a contract"""

    def __init__(self, stubs=None, ext=None, loops=None, only_real=None):
        self.stubs = stubs or {}
        self.mods = {}
        self.ext = ext or {}
        self.loops = loops
        self.builtins = self.make_builtins()
        self.used_stubs = set()

    def make_builtins(self):
        d = dict(vars(B))
        d.update(len=f_len, range=f_range, zip=f_zip, enumerate=f_enumerate, min=f_minmax(True), max=f_minmax(False),
                 int=f_int, float=f_float, sum=f_sum, any=f_any, all=f_all, sorted=f_sorted, list=f_list,
                 tuple=f_tuple, bool=f_bool, round=f_round, print=f_print, map=f_map, isinstance=f_isinstance,
                 type=f_type, callable=f_callable, reversed=f_reversed, set=f_set, filter=f_filter)
        for fn, t in ((f_int, int), (f_float, float), (f_list, list), (f_tuple, tuple), (f_bool, bool), (f_set, set)):
            TYPE_OF[id(fn)] = t
            fn._kind = {int: "i", float: "f", bool: "b"}.get(t)
        d["__import__"] = self.imp
        from . import loops
        d["_vc_fmt"] = vc_fmt
        d["_vc_quiet"] = lambda t: False if isinstance(t, S) else t
        d["_vc_for"] = lambda *a: loops.vc_for(self, *a)
        d["_vc_while"] = lambda *a: loops.vc_while(self, *a)
        d["_vc_comp"] = comp
        d["_vc_nested"] = lambda k, f: self.stubs[k](f) if k in self.stubs else f
        d["_vc_unpacked"] = unpacked
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            base = pkg[: len(pkg) - (level - 1)]
            full = ".".join(base + ([name] if name else []))
            m = self.module(full)
            for f in fromlist or ():
                if not hasattr(m, f):
                    try:
                        setattr(m, f, self.module(full + "." + f))
                    except FileNotFoundError:
                        pass
            return m
        root = name.split(".")[0]
        if root == "SeismicMesh":
            m = self.module(name)
            return m if fromlist else self.module("SeismicMesh")
        if name in self.ext and (fromlist or root == name or root not in self.ext):
            return self.ext[name]
        if name == "numpy":
            return symnp
        if root == "numpy":
            return getattr(symnp, name.split(".")[1])
        if name == "math":
            return MATH
        if name == "functools":
            return FUNCTOOLS
        if name == "warnings":
            return WARNINGS
        if name in ("time", "itertools", "copy", "os", "sys", "random", "operator", "collections", "typing", "abc",
                    "numbers", "dataclasses", "__future__", "contextlib", "enum", "string", "re"):
            return __import__(name, globals, locals, fromlist, level)
        if root in self.ext:
            return self.ext[root]
        return AnyMod(name if fromlist else root)

    def path(self, name):
        p = os.path.join(REPO, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    _code = {}

    @classmethod
    def code(cls, path, name):
        src = open(path).read()
        key = (path, hashlib.sha256(src.encode()).hexdigest())
        if key not in cls._code:
            tree = ast.parse(src, path)
            tree = Tr(name).visit(tree)
            ast.fix_missing_locations(tree)
            cls._code[key] = compile(tree, path, "exec")
        return cls._code[key]

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path, ispkg = self.path(name)
        if not os.path.exists(path):
            raise FileNotFoundError(path)
        if name == "SeismicMesh":
            m = Mod(name)           # the top-level package only re-exports
            self.mods[name] = m
            m.__dict__["__package__"] = name
            return m
        m = Mod(name)
        self.mods[name] = m
        d = m.__dict__
        d["__builtins__"] = self.builtins
        d["__file__"] = path
        d["__package__"] = name if ispkg else name.rpartition(".")[0]
        exec(self.code(path, name), d)
        for k, f in self.stubs.items():
            mn, fn = k.split(":")
            if mn == name:
                if fn not in d:
                    # the function was renamed or removed: nothing to replace
                    continue
                d[fn] = f
        par, _, leaf = name.rpartition(".")
        if par in self.mods:
            setattr(self.mods[par], leaf, m)
        return m

    def fn(self, modname, fname):
        pkg = modname.rpartition(".")[0]
        if pkg.count(".") == 1:
            self.module(pkg)        # as python does: the package first
        m = self.module(modname)
        o = m
        for part in fname.split("."):
            if not hasattr(o, part):
                raise Unsupported(f"{modname}:{fname} not found")
            o = getattr(o, part)
        return o
