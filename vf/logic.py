"""Verification context: path exploration, ground facts, typed-axis quantifier
instantiation and obligation discharge (z3, with a polynomial-identity prover).

Numbers are mathematical (Int / Real).  Library functions are represented by
uninterpreted functions whose contracts are added as ground facts when a term is
built, or as universally quantified facts (`Fact`) that are instantiated over the
index terms noted on an axis.  Everything handed to z3 is quantifier free.
"""
import contextlib
import itertools
import time
from fractions import Fraction

import z3


class PathEnd(Exception):
    """This execution path needs no further exploration."""


class Unsupported(Exception):
    """The code uses something outside the verified subset."""


class Budget(Exception):
    pass


# ----------------------------------------------------------------- scalars
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise Unsupported(f"constant {x!r}")


def is_num(x):
    return isinstance(x, (int, float, Fraction)) and not isinstance(x, bool)


class S:
    """Symbolic scalar."""

    __slots__ = ("e",)
    __array_priority__ = 1000
    ndim = 0
    shape = ()

    def __init__(self, e):
        self.e = e

    # -- classification
    @property
    def kind(self):
        s = self.e.sort().kind()
        return {z3.Z3_INT_SORT: "i", z3.Z3_REAL_SORT: "f", z3.Z3_BOOL_SORT: "b"}.get(s, "o")

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        from . import symnp
        return symnp.DType(self.kind)

    def __hash__(self):
        return self.e.hash()

    def __repr__(self):
        t = str(self.e)
        return t if len(t) < 200 else t[:200] + "..."

    def __format__(self, spec):
        return "<sym>"

    # -- arithmetic
    def _bin(self, o, f):
        from . import symnp
        if isinstance(o, symnp.SymArray):
            return NotImplemented
        if isinstance(o, (list, tuple)):      # numpy scalar with a sequence
            return symnp.elementwise(lambda x, y: x._bin(y, f), (self, symnp.asarray(o)))
        a, b = coerce2(self, o)
        return S(f(a, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple)):
            if len(o) == 1:
                from . import symnp
                n = ctx().implied(self.e >= 0) and self or S(z3.If(self.e < 0, 0, self.e))
                return symnp.SymList(n, lambda i, v=o[0]: v)
            raise Unsupported("sequence repetition by a symbolic count")
        return self._bin(o, lambda a, b: b * a)

    def __truediv__(self, o):
        from . import symnp
        if isinstance(o, symnp.SymArray):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            return symnp.asarray(self) / symnp.asarray(o)
        return S(rdiv(real(self), real(o)))

    def __rtruediv__(self, o):
        from . import symnp
        if isinstance(o, (list, tuple)):
            return symnp.asarray(o) / self
        return S(rdiv(real(o), real(self)))

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(o, self)

    def __mod__(self, o):
        return pymod(self, o)

    def __rmod__(self, o):
        return pymod(o, self)

    def __neg__(self):
        return S(-num(self))

    def __pos__(self):
        return self

    def __abs__(self):
        n = canon(num(self))
        return S(z3.If(n >= 0, n, -n))

    def __pow__(self, o):
        return spow(self, o)

    def __rpow__(self, o):
        raise Unsupported("symbolic exponent")

    # -- comparisons
    def _cmp(self, o, f):
        from . import symnp
        if isinstance(o, symnp.SymArray):
            return NotImplemented
        if is_inf(self) != is_inf(o):
            return f(1, 0) if is_inf(self) else f(0, 1)
        if o is None or isinstance(o, str):
            return NotImplemented
        a, b = coerce2(self, o)
        return S(f(canon(a), canon(b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, (bool, S)) and self.kind == "b":
            return S(self.e == boolx(o))
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if isinstance(o, (bool, S)) and self.kind == "b":
            return S(z3.Not(self.e == boolx(o)))
        return self._cmp(o, lambda a, b: a != b)

    # -- logic
    def __and__(self, o):
        from . import symnp
        if isinstance(o, symnp.SymArray):
            return NotImplemented
        return S(z3.And(boolx(self), boolx(o)))

    __rand__ = __and__

    def __or__(self, o):
        from . import symnp
        if isinstance(o, symnp.SymArray):
            return NotImplemented
        return S(z3.Or(boolx(self), boolx(o)))

    __ror__ = __or__

    def __invert__(self):
        return S(z3.Not(boolx(self)))

    def __bool__(self):
        c = ctx()
        return c.decide(truth(self))

    # -- things that need a concrete value
    def __int__(self):
        raise Unsupported("int() of a symbolic value through the builtin")

    __index__ = None

    def __float__(self):
        raise Unsupported("float() of a symbolic value through the builtin")

    # -- numpy scalar conveniences
    def astype(self, t):
        from . import symnp
        return symnp.cast_scalar(self, symnp.kind_of(t))

    def min(self, *a, **k):
        return self

    max = min

    def item(self):
        return self

    def all(self):
        return self

    any = all

    def copy(self):
        return self

    def ravel(self):
        from . import symnp
        return symnp.asarray(self).ravel()

    def sum(self, *a, **k):
        return self


del S.__index__

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()


def const(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    f = frac(x)
    return z3.RealVal(f)


def ex(x):
    """z3 expression of a python/S scalar."""
    if isinstance(x, S):
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    from . import symnp
    if isinstance(x, symnp.SymArray) and x.ndim == 0:
        return ex(x.item())
    return const(x)


def num(x):
    e = ex(x)
    if z3.is_bool(e):
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def real(x):
    e = num(x)
    if e.sort() == I:
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def integer(x):
    e = num(x)
    if e.sort() != I:
        raise Unsupported("integer expected")
    return e


def boolx(x):
    e = ex(x)
    if not z3.is_bool(e):
        return e != 0
    return e


truth = boolx


def coerce2(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a, b


def rdiv(a, b):
    return a / b


def simp(e):
    return z3.simplify(e)


def floordiv(a, b):
    if is_num(a) and is_num(b):
        return a // b
    a, b = coerce2(a, b)
    if a.sort() == I:
        if z3.is_int_value(b) and b.as_long() > 0:
            return S(a / b)
        ctx().need(b > 0, "integer division by a positive number")
        return S(a / b)
    return S(z3.ToReal(z3.ToInt(a / b)))


def pymod(a, b):
    if is_num(a) and is_num(b):
        return a % b
    a, b = coerce2(a, b)
    if a.sort() == I:
        if z3.is_int_value(b) and b.as_long() > 0:
            return S(a % b)
        ctx().need(b > 0, "modulo a positive number")
        return S(a % b)
    # np.mod: a - b*floor(a/b)
    return S(a - b * z3.ToReal(z3.ToInt(a / b)))


Sqrt = z3.Function("sqrt", R, R)
Cos = z3.Function("cos", R, R)
Sin = z3.Function("sin", R, R)
Acos = z3.Function("acos", R, R)
Pow = z3.Function("powr", R, R, R)
PI = z3.Real("pi")


def ssqrt(x):
    if is_num(x):
        f = frac(x)
        import math
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                r = Fraction(a, b)
                return r if r.denominator != 1 else float(r)
    if getattr(ctx(), "canon", False) == "poly" and not is_num(x):
        a = canon(real(x))
    else:
        a = z3.simplify(real(x), som=True)
    if z3.is_rational_value(a):
        r = ssqrt(Fraction(a.numerator_as_long(), a.denominator_as_long())) if not is_num(x) else None
        if r is not None:
            return r
    c = ctx()
    if getattr(c, "canon", False):
        a = canon(a)
        r = square_root_of(c, a)
        if r is not None:
            return S(r)
    s = Sqrt(a)
    if c.once(("sqrt", s)):
        c.fact(z3.Implies(a >= 0, z3.And(s >= 0, s * s == a)))
        c.fact(z3.Implies(a > 0, s > 0))
        c.squares[s.get_id()] = (s, a)
    return S(s)


def square_root_of(c, a):
    """sqrt of  q*m^2  for atoms known to be positive (context ghost set `positive`)"""
    rg = Ring(c)
    p = rg.poly(a)
    if len(p) != 1:
        return None
    (m, cf), = p.items()
    pos = getattr(c, "positive", {})
    if any(k % 2 or a not in pos for a, k in m):
        return None
    q = ssqrt(cf)
    if isinstance(q, S):
        return None
    return rg.expr({tuple((a, k // 2) for a, k in m): frac(q)})


def scos(x):
    if is_num(x) and x == 0:
        return 1.0
    a = z3.simplify(real(x), som=True)
    c = ctx()
    cs, sn = Cos(a), Sin(a)
    if c.once(("trig", cs)):
        c.fact(cs * cs + sn * sn == 1)
        c.squares[sn.get_id()] = (sn, 1 - cs * cs)
        c.fact(z3.Implies(a == 0, z3.And(cs == 1, sn == 0)))
    return S(cs)


def ssin(x):
    if is_num(x) and x == 0:
        return 0.0
    scos(x)
    return S(Sin(z3.simplify(real(x), som=True)))


def sacos(x):
    a = z3.simplify(real(x), som=True)
    t = Acos(a)
    c = ctx()
    if c.once(("acos", t)):
        c.fact(z3.Implies(z3.And(a >= -1, a <= 1), z3.And(t >= 0, t <= PI)))
        c.fact(PI > 3)
    return S(t)


def spow(x, n):
    if is_num(x) and is_num(n):
        return x ** n
    if isinstance(n, S):
        if z3.is_int_value(n.e):
            n = n.e.as_long()
        else:
            raise Unsupported("symbolic exponent")
    f = frac(n)
    if f == Fraction(1, 2):
        return ssqrt(x)
    if f.denominator == 1 and f >= 0:
        k = int(f)
        if k == 0:
            return 1
        e = num(x) if isinstance(n, int) else num(x)
        r = e
        for _ in range(k - 1):
            r = r * e
        return S(r)
    if f.denominator == 1:
        return S(z3.RealVal(1) / ex(spow(S(real(x)), int(-f))))
    # general root: uninterpreted, only congruence, sign and n-th power known
    a = z3.simplify(real(x), som=True)
    t = Pow(a, z3.RealVal(f))
    c = ctx()
    if c.once(("pow", t)):
        c.fact(z3.Implies(a >= 0, t >= 0))
        c.fact(z3.Implies(a > 0, t > 0))
        if f.numerator == 1:
            p = t
            for _ in range(f.denominator - 1):
                p = p * t
            c.fact(z3.Implies(a >= 0, p == a))
    return S(t)


INF = z3.Real("inf_")


def is_inf(x):
    """numpy.inf: larger than every number the code computes"""
    if isinstance(x, S):
        x = x.e
    return z3.is_expr(x) and z3.is_const(x) and x.eq(INF)


def smin(a, b):
    if is_num(a) and is_num(b):
        return min(a, b)
    if is_inf(a):
        return b
    if is_inf(b):
        return a
    x, y = coerce2(a, b)
    x, y = canon(x), canon(y)
    return S(z3.If(y < x, y, x))


def smax(a, b):
    if is_num(a) and is_num(b):
        return max(a, b)
    if is_inf(a) or is_inf(b):
        return S(INF)
    x, y = coerce2(a, b)
    x, y = canon(x), canon(y)
    return S(z3.If(y > x, y, x))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    ce = z3.simplify(boolx(c))
    if z3.is_true(ce):
        return a
    if z3.is_false(ce):
        return b
    if a is b:
        return a
    ea, eb = ex(a), ex(b)
    if z3.is_bool(ea) and z3.is_bool(eb):
        return S(z3.If(ce, ea, eb))
    ea, eb = coerce2(a, b)
    return S(z3.If(ce, ea, eb))


def sgn(x):
    e = num(x)
    one = z3.IntVal(1) if e.sort() == I else z3.RealVal(1)
    return S(z3.If(e > 0, one, z3.If(e < 0, -one, one - one)))


# ----------------------------------------------------------------- time
# Formulas and element functions are evaluated lazily, long after they were stated.  Every
# mutable cell keeps its history on one write clock, and an evaluation reads the cells as
# they were when the formula was stated.
CLOCK = [0]
ASOF = [None]


def frozen(f):
    """the function f, evaluated in the state of this moment whenever it is called"""
    if f is None or getattr(f, "_epoch", None) is not None:
        return f
    epoch = CLOCK[0] if ASOF[0] is None else ASOF[0]

    def g(*a):
        old, ASOF[0] = ASOF[0], epoch
        try:
            return f(*a)
        finally:
            ASOF[0] = old
    g._epoch = epoch
    return g


class Timed:
    """attribute with a history"""

    def __set_name__(self, owner, name):
        self.key = "_h_" + name

    def __set__(self, o, v):
        CLOCK[0] += 1
        o.__dict__.setdefault(self.key, []).append((CLOCK[0], v))

    def __get__(self, o, owner=None):
        if o is None:
            return self
        h = o.__dict__.get(self.key)
        if h is None:
            raise AttributeError(self.key)
        a = ASOF[0]
        if a is None or len(h) == 1 or h[0][0] > a:
            return h[-1][1]
        for t, v in reversed(h):
            if t <= a:
                return v


# ----------------------------------------------------------------- formulas
class All:
    """for all 0 <= i_k < len_k : body(i...)   (body returns z3 Bool / S / formula)"""

    def __init__(self, lens, body):
        self.lens = lens if isinstance(lens, (list, tuple)) else [lens]
        self.body = frozen(body)


class Ex:
    def __init__(self, lens, body):
        self.lens = lens if isinstance(lens, (list, tuple)) else [lens]
        self.body = frozen(body)


class And:
    def __init__(self, *a):
        self.a = list(itertools.chain.from_iterable(x if isinstance(x, (list, tuple)) else [x] for x in a))


class Or:
    def __init__(self, *a):
        self.a = list(itertools.chain.from_iterable(x if isinstance(x, (list, tuple)) else [x] for x in a))


class Not:
    def __init__(self, a):
        self.a = a


def Imp(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Imp(a, b), Imp(b, a))


FORM = (All, Ex, And, Or, Not)


def nnf(f, pos=True):
    """-> formula tree without Not, over All/Ex/And/Or and z3 Bools"""
    if isinstance(f, bool):
        return z3.BoolVal(f if pos else not f)
    if isinstance(f, Not):
        return nnf(f.a, not pos)
    if isinstance(f, And):
        return (And if pos else Or)([nnf(x, pos) for x in f.a])
    if isinstance(f, Or):
        return (Or if pos else And)([nnf(x, pos) for x in f.a])
    if isinstance(f, All):
        return (All if pos else Ex)(f.lens, lambda *i, b=f.body: nnf(b(*i), pos))
    if isinstance(f, Ex):
        return (Ex if pos else All)(f.lens, lambda *i, b=f.body: nnf(b(*i), pos))
    e = boolx(f)
    return e if pos else z3.Not(e)


# ----------------------------------------------------------------- context
_cur = []


def ctx():
    return _cur[-1]


class Fact:
    __slots__ = ("lens", "body", "guard", "done", "name", "depth", "skip")

    def __init__(self, lens, body, guard, name="", depth=0, skip=None):
        self.lens, self.body, self.guard, self.name, self.depth, self.skip = lens, frozen(body), guard, name, depth, skip
        self.done = set()


class Axis:
    def __init__(self, key, length):
        self.key, self.length = key, length
        self.terms = []      # (expr, level)
        self.seen = set()
        self.links = []      # axes of longer versions: same terms


class Ctx:
    MAXINST = 4000

    def __init__(self, prefix=(), explorer=None):
        self.pc = []            # path condition and assumptions (z3 Bool)
        self.g = []             # ground facts (valid formulas about library terms)
        self.facts = []         # Fact
        self.axes = {}
        self._once = set()
        self.keep = []          # keep ASTs alive so ids stay unique
        self.squares = {}
        self.prefix = list(prefix)
        self.trace = []
        self.base, self.nobl, self.replaying = (), 0, False
        self.counter = {}
        self.explorer = explorer
        self.level = 0
        self.calls = []         # ghost trace of library / callee events
        self.writes = []
        self.ninst = 0
        self.stack = [None]
        self.log = []
        self.unchecked = False

    # fresh symbols (deterministic per path)
    def fresh(self, name, sort):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return z3.Const(f"{name}!{k}" if k else name, sort)

    def fresh_fn(self, name, *sorts):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        return z3.Function(f"{name}!{k}" if k else name, *sorts)

    def once(self, key):
        key = tuple(x.get_id() if isinstance(x, z3.ExprRef) else x for x in key)
        if key in self._once:
            return False
        self._once.add(key)
        return True

    @contextlib.contextmanager
    def trial(self):
        """reading values for a test leaves no facts or terms behind"""
        g, pc, fs, once = len(self.g), len(self.pc), len(self.facts), set(self._once)
        ax = {k: (len(a.terms), set(a.seen), len(a.links)) for k, a in self.axes.items()}
        try:
            yield
        finally:
            del self.g[g:], self.pc[pc:], self.facts[fs:]
            self._once = once
            for k in list(self.axes):
                if k not in ax:
                    del self.axes[k]
                    continue
                a = self.axes[k]
                nt, a.seen, nl = ax[k]
                del a.terms[nt:], a.links[nl:]

    def hold(self, e):
        self.keep.append(e)
        return e

    def fact(self, e):
        self.hold(e)
        self.g.append(e)

    # assumptions
    def assume(self, f):
        self._assert(nnf(f))

    def _assert(self, f, guard=None):
        if isinstance(f, And):
            for x in f.a:
                self._assert(x, guard)
        elif isinstance(f, All):
            self.facts.append(Fact(f.lens, f.body, guard, depth=self.level))
        elif isinstance(f, Ex):
            sk = []
            for ln in f.lens:
                i = self.fresh("sk", I)
                sk.append(S(i))
                c = z3.And(i >= 0, i < ex(ln))
                self._ground(c, guard)
                self.note(ln, i)
            self._assert(f.body(*sk), guard)
        elif isinstance(f, Or):
            gs = []
            for x in f.a:
                if isinstance(x, FORM):
                    b = self.fresh("or", B)
                    gs.append(b)
                    self._assert(x, b)
                else:
                    gs.append(boolx(x))
            self._ground(z3.Or(*gs) if gs else z3.BoolVal(False), guard)
        else:
            self._ground(boolx(f), guard)

    def _ground(self, e, guard):
        self.pc.append(e if guard is None else z3.Implies(guard, e))
        self.hold(e)

    def assume_all(self, lens, body, name="", skip=None):
        self.facts.append(Fact(lens if isinstance(lens, (list, tuple)) else [lens],
                               lambda *i: nnf(body(*i)), None, name, depth=self.level, skip=skip))

    # axes
    def axis(self, ln):
        e = z3.simplify(ex(ln), som=True)
        if z3.is_int_value(e):
            return None
        k = e.get_id()
        if k not in self.axes:
            self.hold(e)
            self.axes[k] = Axis(k, e)
        return self.axes[k]

    def note(self, ln, i):
        a = self.axis(ln)
        if a is None:
            return
        t = z3.simplify(ex(i))
        k = t.get_id()
        if k not in a.seen:
            self.hold(t)
            a.seen.add(k)
            a.terms.append((t, self.level))
            for q in a.links:
                self.note(q, t)

    def link(self, n, m):
        """terms of the axis of length n also name positions of the longer axis m"""
        a = self.axis(n)
        if a is None or self.axis(m) is None:
            return
        a.links.append(m)
        for t, _ in list(a.terms):
            self.note(m, t)

    # solving
    def solver(self, timeout=8000):
        s = z3.Solver()
        s.set("timeout", timeout)
        return s

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        n = len(self.trace)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.trace.append(v)
            self.pc.append(cond if v else z3.Not(cond))
            return v
        t_ok = self.feasible(cond)
        f_ok = self.feasible(z3.Not(cond))
        if t_ok and f_ok:
            if len(self.trace) > 200:
                raise Unsupported("too many branches")
            if self.explorer is not None:
                self.explorer.push(self.trace + [False])
            v = True
        elif t_ok:
            v = True
        elif f_ok:
            v = False
        else:
            raise PathEnd("infeasible")
        self.trace.append(v)
        self.pc.append(cond if v else z3.Not(cond))
        return v

    def choose(self, label=""):
        """non-deterministic fork (both alternatives explored)"""
        n = len(self.trace)
        if n < len(self.prefix):
            v = self.prefix[n]
            self.trace.append(v)
            return v
        if self.explorer is not None:
            self.explorer.push(self.trace + [False])
        self.trace.append(True)
        return True

    def feasible(self, cond, timeout=1500):
        s = self.solver(timeout)
        s.add(*self.g)
        s.add(*self.pc)
        s.add(cond)
        r = s.check()
        return r != z3.unsat

    def implied(self, cond, timeout=4000, rounds=1):
        """cheap check that cond holds on this path"""
        cond = z3.simplify(boolx(cond))
        if z3.is_true(cond):
            return True
        if no_real(cond):
            s = self.solver(timeout)
            s.add(*[f for f in self.g + self.pc if no_real(f)])
            s.add(z3.Not(cond))
            return s.check() == z3.unsat
        s = self.solver(timeout)
        s.add(*self.g)
        s.add(*self.pc)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat

    def entails(self, cond, rounds=2):
        """cond holds on this path, quantified facts included"""
        cond = z3.simplify(boolx(cond))
        if self.implied(cond):
            return True
        if not self.facts or self.explorer is None:
            return False
        key = cond.get_id()
        memo = self.__dict__.setdefault("entailed", {})
        st = (len(self.pc), len(self.facts))
        if key in memo and (memo[key][0] is True or memo[key][1] == st):
            return memo[key][0]
        o = Obl("", "")
        X = self.explorer
        n = len(X.obls)
        X._discharge(self, o, cond, 3.0, rounds, ())
        del X.obls[n:]
        r = o.status == "proved"
        memo[key] = (r, st, self.hold(cond))
        if r:
            self.pc.append(cond)
        return r

    def need(self, cond, what):
        """side condition of a library operation: must hold, otherwise it is an obligation failure"""
        if getattr(self, "mute", False) or self.implied(cond):
            return
        if self.explorer.oblige(self, "library-precondition: " + what, cond):
            self.pc.append(cond)

    def instantiate(self, rounds=2, deadline=None):
        # the maximal level counts instantiation generations
        for r in range(rounds):
            self.level = r + 1
            for f in list(self.facts):
                self._inst_fact(f, r)
                if self.ninst > self.MAXINST:
                    return
        self.level = 0

    def _inst_fact(self, f, maxlevel):
        doms = []
        for ln in f.lens:
            a = self.axis(ln)
            if a is None:
                n = z3.simplify(ex(ln)).as_long()
                if n > 64:
                    return False
                doms.append([z3.IntVal(k) for k in range(n)])
            else:
                doms.append([t for t, lv in a.terms if lv <= maxlevel])
        prog = False
        for tup in itertools.product(*doms):
            key = tuple(t.get_id() for t in tup)
            if key in f.done:
                continue
            f.done.add(key)
            if f.skip is not None and f.skip(*tup):
                continue
            self.ninst += 1
            if self.ninst > self.MAXINST:
                return prog
            prog = True
            old, self.unchecked = self.unchecked, True
            try:
                b = nnf(f.body(*[S(t) for t in tup]))
            finally:
                self.unchecked = old
            gs = []
            for t, ln in zip(tup, f.lens):
                gs += [t >= 0, t < ex(ln)]
            gd = z3.And(*gs) if gs else z3.BoolVal(True)
            if f.guard is not None:
                gd = z3.And(f.guard, gd)
            self._assert(b, z3.simplify(gd))
        return prog


# ----------------------------------------------------------------- polynomial identities
def factors(b):
    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_MUL:
        return [f for x in b.children() for f in factors(x)]
    return [b]


class Ring:
    """decides polynomial identities modulo  a^2 = q  rewrites (sqrt, sin) and divisions"""

    def __init__(self, c, squares=True):
        self.c = c
        self.squares = squares
        self.atoms = {}
        self.inv = {}

    def poly(self, e):
        k = e.decl().kind() if z3.is_app(e) else None
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return {(): v} if v else {}
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in e.children():
                r = padd(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = padd(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return padd({}, self.poly(e.children()[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = {(): Fraction(1)}
            for c in e.children():
                r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = e.children()
            inv = {(): Fraction(1)}
            pa = self.poly(a)
            for b in factors(b):
                pb = self.poly(b)
                if not pb:
                    return self.atom(e)
                if len(pb) > 1:
                    q = pdivide(pa, pb)
                    if q is not None:
                        pa = q
                        continue
                if list(pb) == [()]:
                    inv = padd({}, inv, 1 / pb[()])
                elif len(pb) == 1:
                    (m, cf), = pb.items()
                    inv = self.mul(inv, {tuple((at, -p) for at, p in m): 1 / cf})
                else:
                    # denominator is a sum: make it an atom named by its (monic) normal form
                    ms = sorted(pb, key=repr)
                    lead = pb[ms[0]]
                    key = ("den",) + tuple((m, pb[m] / lead) for m in ms)
                    inv = self.mul(inv, {((key, -1),): 1 / lead})
            return self.mul(pa, inv)
        if k == z3.Z3_OP_POWER:
            a, b = e.children()
            if z3.is_int_value(b) or z3.is_rational_value(b):
                n = b.as_long() if z3.is_int_value(b) else None
                if n is None and b.denominator_as_long() == 1:
                    n = b.numerator_as_long()
                if n is not None and 0 <= n < 12:
                    r = {(): Fraction(1)}
                    p = self.poly(a)
                    for _ in range(n):
                        r = self.mul(r, p)
                    return r
        if k == z3.Z3_OP_TO_REAL:
            return self.poly(e.children()[0])
        return self.atom(e)

    def atom(self, e):
        i = e.get_id()
        self.c.hold(e)
        self.atoms[i] = e
        return {((i, 1),): Fraction(1)}

    def mul(self, p, q):
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                d = dict(m1)
                for a, k in m2:
                    d[a] = d.get(a, 0) + k
                m = tuple(sorted(((a, k) for a, k in d.items() if k), key=repr))
                r[m] = r.get(m, Fraction(0)) + c1 * c2
                if not r[m]:
                    del r[m]
        return self.reduce(r)

    def reduce(self, p):
        while self.squares:
            hit = None
            for m in p:
                for a, k in m:
                    if isinstance(a, int) and a in self.c.squares and k >= 2:
                        hit = (m, a, k)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a, k = hit
            cf = p.pop(m)
            rest = {tuple(sorted([(x, j) for x, j in m if x != a] + ([(a, k - 2)] if k > 2 else []), key=repr)): cf}
            sq = self.poly(z3.simplify(self.c.squares[a][1], som=True))
            t = self.mul(rest, sq)
            p = padd(p, t)
        return p

    def expr(self, p):
        """rebuild a z3 term; None when a composite denominator occurs"""
        def akey(a):
            return (0, a) if isinstance(a, int) else (1, repr(a))
        terms = []
        for m in sorted(p, key=lambda m: [(akey(a), k) for a, k in m]):
            fs, dn = [], []
            for a, k in sorted(m, key=lambda t: akey(t[0])):
                if not isinstance(a, int):
                    return None
                x = self.atoms[a]
                if x.sort() == I:
                    x = z3.ToReal(x)
                (fs if k > 0 else dn).extend([x] * abs(k))
            cf = p[m]
            t = None
            for x in fs:
                t = x if t is None else t * x
            if t is None:
                t = z3.RealVal(cf)
            elif cf != 1:
                t = z3.RealVal(cf) * t
            for x in dn:
                t = t / x
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def is_zero(self, e):
        try:
            p = self.reduce(self.poly(e))
            if not p:
                return True
            # a != 0 for an atom a with a known square: clear its negative powers
            for _ in range(8):
                neg = {}
                for m in p:
                    for a, k in m:
                        if isinstance(a, int) and k < 0 and a in self.c.squares:
                            neg[a] = max(neg.get(a, 0), -k)
                if not neg:
                    break
                a, k = next(iter(neg.items()))
                p = self.mul(p, {((a, k + k % 2),): Fraction(1)})
                if not p:
                    return True
            # clear one level of composite denominators:  multiply by den and re-expand
            for _ in range(4):
                dens = {}
                for m in p:
                    for a, k in m:
                        if isinstance(a, tuple) and k < 0:
                            dens[a] = max(dens.get(a, 0), -k)
                if not dens:
                    break
                a, k = next(iter(dens.items()))
                den = dict(a[1:])
                out = {}
                for m, cf in p.items():
                    j = dict(m).get(a, 0)
                    rest = {tuple(x for x in m if x[0] != a): cf}
                    for _ in range(k + j):
                        rest = self.mul(rest, den)
                    out = padd(out, rest)
                p = self.reduce(out)
                if not p:
                    return True
            return not p
        except RecursionError:
            return False


def canon(e):
    """canonical polynomial form modulo the square rewrites of the context (if enabled)"""
    c = ctx()
    if not getattr(c, "canon", False) or not z3.is_expr(e) or e.sort() != R:
        return e
    memo = c.__dict__.setdefault("canon_memo", {})
    k = e.get_id()
    if k in memo:
        return memo[k]
    rg = Ring(c, squares=c.canon != "poly")
    try:
        p = rg.reduce(rg.poly(e))
    except RecursionError:
        return e
    r = rg.expr(p)
    c.hold(e)
    memo[k] = r if r is not None else e
    if r is not None:
        memo[r.get_id()] = r
        c.hold(r)
    return memo[k]


def pdivide(p, q):
    """exact quotient of two polynomials (None when there is none or it is not attempted)"""
    if not p:
        return {}
    if len(p) < len(q) or len(p) > 400 or any(k < 0 for d in (p, q) for m in d for _, k in m):
        return None
    atoms = sorted({a for d in (p, q) for m in d for a, _ in m}, key=repr)

    def vec(d):
        return {tuple(dict(m).get(a, 0) for a in atoms): c for m, c in d.items()}
    r, q = vec(p), vec(q)
    lq = max(q)
    out = {}
    while r:
        lr = max(r)
        t = tuple(x - y for x, y in zip(lr, lq))
        if min(t) < 0 or len(out) > 400:
            return None
        cf = r[lr] / q[lq]
        out[t] = cf
        for m, c in q.items():
            k = tuple(x + y for x, y in zip(m, t))
            v = r.get(k, 0) - cf * c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return {tuple(sorted(((a, k) for a, k in zip(atoms, m) if k), key=repr)): c for m, c in out.items()}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        elif m in r:
            del r[m]
    return r


def purify(fs):
    """replace applications of uninterpreted functions by variables (weaker formula:
    unsat is preserved backwards); second result: only real/bool variables left"""
    memo = {}
    names = {}
    ok = [True]

    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        if z3.is_quantifier(e) or z3.is_var(e):
            ok[0] = False
            r = e
        elif z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args():
            r = names.setdefault(k, z3.FreshConst(e.sort(), "u"))
            if e.sort() == I:
                ok[0] = False
        else:
            if z3.is_app(e) and e.num_args():
                ch = [walk(x) for x in e.children()]
                if e.decl().kind() in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
                    ok[0] = False
                r = rebuild(e, ch)
            else:
                if e.sort() == I and not z3.is_int_value(e):
                    ok[0] = False
                r = e
        memo[k] = (e, r)
        return r
    out = []
    for f in fs:
        ok1 = ok[0]
        ok[0] = True
        r = walk(f)
        # formulas over integers are dropped (weaker again)
        if ok[0] and not has_int(r):
            out.append(r)
        ok[0] = ok1
    return out, bool(out)


_noreal = {}


def no_real(e):
    if not z3.is_expr(e):
        return False
    k = e.get_id()
    if k in _noreal and _noreal[k][0].eq(e):
        return _noreal[k][1]
    seen = set()
    st = [e]
    r = True
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or x.sort() == R:
            r = False
            break
        st += x.children()
    _noreal[k] = (e, r)
    return r


def has_int(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort() == I:
            return True
        st += x.children()
    return False


def rebuild(e, ch):
    k = e.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_MUL:
        return z3.Product(ch) if len(ch) > 1 else ch[0]
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return e.decl()(*ch)


# ----------------------------------------------------------------- exploration
def _conj(f):
    if isinstance(f, And):
        return z3.And(*[_conj(x) for x in f.a])
    return boolx(f)


class Obl:
    __slots__ = ("fn", "name", "status", "backend", "secs", "detail", "model", "rlimit")

    def __init__(self, fn, name):
        self.fn, self.name = fn, name
        self.status, self.backend, self.secs, self.detail, self.model = "?", "", 0.0, "", None


def opaque_products(fs):
    """replace every product / quotient of unknowns by a constant"""
    memo, names, keep, pairs = {}, {}, [], []

    def walk(x):
        k = x.get_id()
        if k in memo:
            return memo[k]
        ch = x.children()
        if not ch:
            r = x
        else:
            ch = [walk(y) for y in ch]
            kind = x.decl().kind()
            nl = kind == z3.Z3_OP_MUL and sum(1 for y in ch if not (z3.is_int_value(y) or z3.is_rational_value(y))) > 1
            nl = nl or kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (
                z3.is_int_value(ch[1]) or z3.is_rational_value(ch[1]))
            if nl:
                num_, key = [y for y in ch if z3.is_int_value(y) or z3.is_rational_value(y)], ch
                if kind == z3.Z3_OP_MUL:
                    key = sorted([y for y in ch if not (z3.is_int_value(y) or z3.is_rational_value(y))], key=lambda y: y.get_id())
                else:
                    num_ = []
                kk = (kind,) + tuple(y.get_id() for y in key)
                if kk not in names:
                    keep.extend(key)
                    names[kk] = z3.Const(f"prod!{len(names)}", x.sort())
                    if kind == z3.Z3_OP_MUL and len(key) == 2:
                        pairs.append((key[0], key[1], names[kk]))
                r = names[kk]
                for y in num_:
                    r = y * r
            else:
                r = rebuild(x, ch)
        keep.append(x)
        memo[k] = r
        return r
    out = [walk(f) for f in fs]
    if len(pairs) <= 24:
        for a, b, p in pairs:
            out.append(z3.And(z3.Implies(z3.And(a >= 0, b >= 0), p >= 0), z3.Implies(z3.And(a > 0, b > 0), p > 0)))
        # products with a common factor grow with the other one
        for k in range(len(pairs)):
            for m in range(k):
                for a, b in ((0, 1), (1, 0)):
                    for u, v in ((0, 1), (1, 0)):
                        if pairs[k][a].eq(pairs[m][u]):
                            y, x, z = pairs[k][a], pairs[k][b], pairs[m][v]
                            p, q = pairs[k][2], pairs[m][2]
                            out.append(z3.And(z3.Implies(x == z, p == q), z3.Implies(z3.And(y >= 0, x <= z), p <= q),
                                              z3.Implies(z3.And(y >= 0, z <= x), q <= p)))
    return out, len(names)


class Explorer:
    def __init__(self, label, timeout=20.0, budget=240.0, max_paths=400):
        self.label = label
        self.timeout = timeout
        self.budget = budget
        self.max_paths = max_paths
        self.work = []
        self.obls = []
        self.paths = 0
        self.completed = 0
        self.t0 = None
        self.unsupported = None
        self.exceptions = []
        self.reach = []
        self.rounds = 2
        self.memo = {}

    def push(self, prefix):
        self.work.append(prefix)

    def run(self, harness):
        """explore all paths of harness(ctx)"""
        self.t0 = time.time()
        self.work = [[]]
        while self.work:
            pre = self.work.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                self.unsupported = "path limit"
                return self
            if time.time() - self.t0 > self.budget:
                self.unsupported = "time budget"
                return self
            c = Ctx(pre, self)
            _cur.append(c)
            try:
                harness(c)
                self.completed += 1
            except PathEnd:
                pass
            except Unsupported as u:
                import traceback
                self.unsupported = f"{u}"
                self.unsupported_tb = traceback.format_exc()
                return self
            except RecursionError:
                self.unsupported = "recursion"
                return self
            finally:
                _cur.pop()
        return self

    def reached(self, c, name):
        """non-vacuity: the path condition at this point must be satisfiable (not refuted)"""
        s = c.solver(4000)
        s.add(*c.g)
        s.add(*c.pc)
        r = s.check()
        self.reach.append((name, str(r)))
        if r == z3.unsat:
            raise PathEnd("vacuous")

    def inner(self, c):
        """an empty context inside c"""
        c.nobl += 1
        c2 = Ctx([], self)
        c2.base = (c.base, tuple(c.trace), c.nobl)
        c2.replaying = len(c.trace) < len(c.prefix) or c.replaying
        return c2

    def lemma(self, c, name, args, hyp, goal, timeout=None):
        """prove  forall reals x: hyp(x) => goal(x)  in an empty context, then use it at the given terms"""
        c2 = self.inner(c)
        xs = [z3.Const(f"x{k}", ex(a).sort()) for k, a in enumerate(args)]
        _cur.append(c2)
        try:
            h = hyp(*xs)
            c2.assume(h)
            ok = self.oblige(c2, "lemma: " + name, goal(*xs), timeout=timeout)
        finally:
            _cur.pop()
        es = [ex(a) for a in args]
        c.assume(z3.Implies(_conj(hyp(*es)), _conj(goal(*es))))
        return ok

    def cut(self, c, name, goal, **kw):
        """oblige and, from here on, use"""
        ok = self.oblige(c, name, goal, **kw)
        c.assume(goal)
        return ok

    def derive(self, c, name, goal, using, gen=(), timeout=None):
        """prove the goal from the listed facts only (each is first shown to hold here);
        the terms `gen` are generalised to arbitrary reals"""
        for k, f in enumerate(using):
            if not any(f.eq(g) for g in c.pc) and not any(f.eq(g) for g in c.g):
                self.oblige(c, name + f" (premise {k})", f)
        sub = [(t, z3.Const(f"g{k}", t.sort())) for k, t in enumerate(gen)]
        fs = [z3.substitute(f, *sub) if sub else f for f in using]
        gl = z3.substitute(boolx(goal), *sub) if sub else boolx(goal)
        c2 = self.inner(c)
        seen = set()

        def walk(e):
            if e.get_id() in seen:
                return
            seen.add(e.get_id())
            c2.hold(e)
            for x in e.children():
                walk(x)
            if z3.is_app(e) and e.decl().eq(Sqrt):
                a = e.arg(0)
                c2.fact(z3.Implies(a >= 0, z3.And(e >= 0, e * e == a)))
                c2.fact(z3.Implies(a > 0, e > 0))
                c2.squares[e.get_id()] = (e, a)
        for f in fs + [gl]:
            walk(f)
        _cur.append(c2)
        try:
            for f in fs:
                c2.assume(f)
            ok = self.oblige(c2, name, gl, timeout=timeout)
        finally:
            _cur.pop()
        c.assume(goal)
        return ok

    # discharge
    def oblige(self, c, name, goal, timeout=None, rounds=None, hints=()):
        rounds = rounds or self.rounds
        done, key = self.replayed(c, name)
        if done is not None:
            return done
        if len(self.obls) > 3000:
            raise Unsupported("too many obligations")
        o = Obl(self.label, name)
        self.obls.append(o)
        t = time.time()
        try:
            self._discharge(c, o, goal, timeout or self.timeout, rounds, hints)
        finally:
            o.secs = time.time() - t
        self.memo[key] = o.status == "proved"
        return o.status == "proved"

    def replayed(self, c, name):
        """obligations met while a path prefix is replayed were discharged when that prefix was first executed"""
        c.nobl += 1
        key = (c.base, tuple(c.trace), c.nobl, name)
        if len(c.trace) < len(c.prefix) or c.replaying:
            return self.memo.get(key), key
        return None, key

    def _discharge(self, c, o, goal, timeout, rounds, hints):
        if isinstance(goal, bool):
            o.status = "proved" if goal else "refuted"
            o.backend = "evaluation"
            if not goal:
                s = c.solver(3000)
                s.add(*c.g)
                s.add(*c.pc)
                r = s.check()
                if r == z3.unsat:
                    o.status = "proved"
                elif r == z3.sat:
                    o.model = s.model()
            return
        # split conjunctions of the top level
        if not isinstance(goal, FORM):
            e = z3.simplify(boolx(goal))
            if z3.is_true(e):
                o.status, o.backend = "proved", "z3-simplify"
                return
            ge = boolx(goal)
            if z3.is_eq(ge) and ge.children()[0].sort() in (R, I):
                a, b = ge.children()
                if Ring(c).is_zero(real(a) - real(b)) or Ring(c).is_zero(z3.simplify(real(a) - real(b))):
                    o.status, o.backend = "proved", "ring-normaliser"
                    return
        # case distinctions made while the goal is evaluated are explored within the query
        todo, worst, n = [list(c.trace)], None, 0
        while todo:
            c_prefix = todo.pop()
            n += 1
            if n > 64:
                o.status, o.detail = "unknown", "too many cases"
                return
            todo += self._forked(c, o, lambda: self._search(c, o, goal, timeout, rounds, hints), timeout * 8 + 60,
                                 c_prefix)
            if o.status != "proved":
                return

    def _forked(self, c, o, job, limit, prefix):
        """run the query in a child process: nothing it instantiates stays behind"""
        import os
        import pickle
        import select
        import signal
        r, w = os.pipe()
        n0, w0 = len(self.obls), len(self.work)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                exc = None
                try:
                    c.ninst = 0
                    c.prefix = prefix
                    job()
                except (Unsupported, PathEnd, Budget) as e:
                    exc = (type(e).__name__, str(e))
                except RecursionError:
                    exc = ("Unsupported", "recursion")
                except Exception as e:
                    import traceback
                    exc = ("Exception", f"{type(e).__name__}: {e}" + chr(10) + traceback.format_exc())

                def ms(m):
                    try:
                        t = m if m is None or isinstance(m, str) else str(m)
                        return t if t is None or len(t) < 6000 else t[:6000] + " ..."
                    except Exception:
                        return None
                nested = [(q.fn, q.name, q.status, q.backend, q.secs, q.detail, ms(q.model)) for q in self.obls[n0:]]
                data = pickle.dumps((o.status, o.backend, o.detail, ms(o.model), nested,
                                     [list(x) for x in self.work[w0:]], exc))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        buf = b""
        end = time.time() + limit
        try:
            while True:
                t = end - time.time()
                if t <= 0:
                    break
                if select.select([r], [], [], t)[0]:
                    d = os.read(r, 1 << 16)
                    if not d:
                        break
                    buf += d
        finally:
            os.close(r)
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        try:
            st, be, de, mo, nested, work, exc = pickle.loads(buf)
        except Exception:
            o.status, o.detail = "unknown", "no answer"
            return []
        o.status, o.backend, o.detail, o.model = st, be, de, mo
        for q in nested:
            n = Obl(q[0], q[1])
            n.status, n.backend, n.secs, n.detail, n.model = q[2:]
            self.obls.append(n)
        if exc:
            if exc[0] == "PathEnd":
                o.status, o.backend = "proved", "z3"      # no state on this path violates the goal
                return work
            if exc[0] == "Unsupported":
                raise Unsupported(exc[1])
            raise RuntimeError(exc[1])
        return work

    def without_products(self, c, fs, timeout):
        """unsatisfiable already when products of unknowns are arbitrary numbers?"""
        lin, n = opaque_products(fs)
        if not n:
            return False
        s = c.solver(int(min(timeout, 5) * 1000))
        s.add(*lin)
        return s.check() == z3.unsat

    def _search(self, c, o, goal, timeout, rounds, hints):
        c.level = 0
        c.unchecked = True
        neg = nnf(Not(goal))
        c._assert(neg)
        for h in hints:
            c.assume(h)
        last = None
        t_start = time.time()
        for r in range(0, rounds + 1):
            if r:
                n0 = len(c.pc) + len(c.g)
                c.instantiate(r)
                if len(c.pc) + len(c.g) == n0 and last is not None and r > 1:
                    continue
            if no_real(neg):
                # integer goal: try the integer facts alone first
                s = c.solver(int(min(timeout, 2.5) * 1000))
                s.add(*[f for f in c.g + c.pc if no_real(f)])
                if s.check() == z3.unsat:
                    o.status, o.backend = "proved", "z3"
                    return
                if r < rounds:
                    last = z3.unknown
                    continue
            s = c.solver(int(min(timeout, 2.5) * 1000))
            s.add(*c.g)
            s.add(*c.pc)
            res = s.check()
            last = res
            if res == z3.unsat:
                o.status, o.backend = "proved", "z3"
                return
            if res == z3.unknown and self.without_products(c, fs_now := list(c.g) + list(c.pc), timeout):
                o.status, o.backend = "proved", "z3/linear"
                return
            if res == z3.sat:
                o.model = s.model()
            elif r in (0, rounds):
                pure, isreal = purify(list(c.g) + list(c.pc))
                if isreal:
                    try:
                        s2 = z3.TryFor(z3.Tactic("qfnra-nlsat"), 2000).solver()
                        s2.add(*pure)
                        if s2.check() == z3.unsat:
                            o.status, o.backend = "proved", "z3/nlsat"
                            return
                    except z3.Z3Exception:
                        pass
        if last == z3.unknown:
            fs = list(c.g) + list(c.pc)
            pure, isreal = purify(fs)
            for tlim in (4, timeout):
                if isreal:
                    try:
                        s2 = z3.TryFor(z3.Tactic("qfnra-nlsat"), int(tlim * 1000)).solver()
                        s2.add(*pure)
                        if s2.check() == z3.unsat:
                            o.status, o.backend = "proved", "z3/nlsat"
                            return
                    except z3.Z3Exception:
                        pass
                for seed in (0, 7):
                    s = c.solver(int(tlim * 1000))
                    s.set("random_seed", seed)
                    s.add(*fs)
                    res = s.check()
                    if res == z3.unsat:
                        o.status, o.backend = "proved", "z3"
                        return
                    if res == z3.sat:
                        o.model = s.model()
                        last = res
                        break
                if last == z3.sat:
                    break
        o.status = "refuted" if last == z3.sat else "unknown"
        o.detail = str(goal)[:300] if not isinstance(goal, FORM) else ""

    def summary(self):
        n = len(self.obls)
        ok = sum(o.status == "proved" for o in self.obls)
        return n, ok
