"""Symbolic arrays: the contracts of the numpy operations the repository uses.

An array is (shape, element function).  Lengths may be symbolic.  Every operation
below *is* the assumed contract of the numpy operation of the same name; they are
cross-checked against CPython/numpy by the executable oracles.
"""
import itertools
import math
from fractions import Fraction

import z3

from .logic import (S, Timed, frozen, Unsupported, ctx, ex, real, integer, boolx, num, is_num, ssqrt, scos, ssin, sacos, smin, smax,
                    ite, sgn, spow, canon, coerce2, simp, I, R, B, const, floordiv, pymod, Imp, And, Or, Not, All, Ex, frac)

builtin_len, builtin_min, builtin_max, builtin_abs = len, min, max, abs
builtin_sum, builtin_any, builtin_all, builtin_int = sum, any, all, int
builtin_range, builtin_enumerate, builtin_zip, builtin_isinstance = range, enumerate, zip, isinstance


class DType:
    def __init__(self, kind, itemsize=8):
        self.kind = kind
        self.itemsize = itemsize
        self.void_cols = None

    def __eq__(self, o):
        return kind_of(o) == self.kind

    def __hash__(self):
        return hash(self.kind)

    def newbyteorder(self, c):
        d = DType(self.kind, self.itemsize)
        d.order = c
        d.name = getattr(self, "name", None)
        return d

    def type(self, x):
        return x


def kind_of(t):
    if isinstance(t, DType):
        return t.kind
    if t is float or t in ("float", "d", "f", "float64", "float32"):
        return "f"
    if t is int or t in ("int", "i", "int64", "int32"):
        return "i"
    if t is bool or t == "bool":
        return "b"
    if t is None:
        return None
    k = getattr(t, "_kind", None)
    if k:
        return k
    raise Unsupported(f"dtype {t!r}")


SORT = {"f": R, "i": I, "b": B}


def cast_scalar(x, kind):
    if kind is None:
        return x
    if is_num(x) or isinstance(x, bool):
        if kind == "f":
            return x if isinstance(x, (float, Fraction)) else float(x)
        if kind == "i":
            return math.trunc(x)
        return bool(x)
    k = x.kind
    if k == kind:
        return x
    if kind == "f":
        return S(real(x))
    if kind == "i":
        if k == "b":
            return S(num(x))
        r = real(x)
        return S(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
    return S(boolx(x))


def dim_eq(a, b):
    if a is b:
        return True
    if is_num(a) and is_num(b):
        return a == b
    d = z3.simplify(ex(a) - ex(b), som=True)
    if z3.is_int_value(d):
        return d.as_long() == 0
    return None


def dims_equal(a, b):
    r = dim_eq(a, b)
    if r is not None:
        return r
    c = ctx()
    if c.implied(ex(a) == ex(b)):
        return True
    if c.implied(ex(a) != ex(b)):
        return False
    return None


def norm_dim(d):
    if is_num(d):
        return int(d)
    if isinstance(d, S):
        e = z3.simplify(d.e, som=True)
        if z3.is_int_value(e):
            return e.as_long()
        return S(e)
    raise Unsupported(f"dimension {d!r}")


def prod_(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    if keepdims:
        return kept(a, axis, prod_(a, axis), True)
    rd = a.snap()
    kd = "i" if a.kind in "bi" else "f"

    def mul(vals):
        r = 1 if kd == "i" else 1.0
        for k, v in builtin_enumerate(vals):
            r = v if k == 0 else r * v
        return r
    if ax is None:
        if not builtin_all(is_num(d) for d in a.shape):
            raise Unsupported("product over a symbolic axis")
        return mul(rd(*i) for i in itertools.product(*[builtin_range(d) for d in a.shape]))
    d = a.shape[ax]
    if not is_num(d):
        raise Unsupported("product over a symbolic axis")
    return scalarise(SymArray(a.shape[:ax] + a.shape[ax + 1:],
                              lambda *i: mul(rd(*i[:ax], k, *i[ax:]) for k in builtin_range(d)), kd))


def prod(xs, axis=None, **kw):
    if axis is not None or kw or is_arr(xs) and not isinstance(xs, (list, tuple)):
        return prod_(xs, axis, **kw)
    r = 1
    for x in xs:
        if is_num(x) and x == 1:
            continue
        r = x * r if not (is_num(r) and r == 1) else x
    return norm_dim(r)


class Buf:
    """mutable element store"""
    fn, memo, version = Timed(), Timed(), Timed()

    def __init__(self, fn, kind):
        self.fn, self.kind = frozen(fn), kind
        self.memo = {}
        self.version = 0

    def read(self, idx):
        key = tuple(i if is_num(i) else ex(i).get_id() for i in idx)
        v = self.memo.get(key)
        if v is None:
            v = self.fn(*idx)
            self.memo[key] = v
            for i in idx:
                if not is_num(i):
                    ctx().hold(ex(i))
        return v

    def update(self, fn):
        self.fn = frozen(fn)
        self.memo = {}
        self.version += 1


def norm_index(i):
    if is_num(i):
        return int(i)
    if isinstance(i, S):
        e = z3.simplify(num(i), som=True)
        if z3.is_int_value(e):
            return e.as_long()
        return S(e)
    if isinstance(i, SymArray) and i.ndim == 0:
        return norm_index(i.item())
    raise Unsupported(f"index {i!r}")


class SymArray:
    __array_priority__ = 2000

    def __init__(self, shape, fn, kind, buf=None, vmap=None, vinv=None, base=None):
        self.shape = tuple(norm_dim(d) for d in shape)
        self.kind = kind
        if buf is None:
            buf = Buf(fn, kind)
            vmap = None
        self.buf = buf
        self.vmap = vmap      # view index -> buffer index
        self.vinv = vinv      # buffer index -> (cond, view index)
        self.base = base
        self.tag = None
        self.ro = False

    # ---- element access
    def at(self, *idx):
        idx = tuple(norm_index(i) for i in idx)
        for d, i in zip(self.shape, idx):
            if not is_num(d) and not is_num(i):
                ctx().note(d, i)
            elif not is_num(d):
                ctx().note(d, z3.IntVal(i))
        b = self.vmap(*idx) if self.vmap else idx
        return self.buf.read(tuple(norm_index(i) for i in b))

    def snap(self):
        """reader of the current contents"""
        fn, vmap, shape = self.buf.fn, self.vmap, self.shape
        memo = {}

        def rd(*idx):
            idx = tuple(norm_index(i) for i in idx)
            key = tuple(i if is_num(i) else ex(i).get_id() for i in idx)
            v = memo.get(key)
            if v is None:
                for d, i in zip(shape, idx):
                    if not is_num(d):
                        ctx().note(d, ex(i))
                b = tuple(norm_index(j) for j in vmap(*idx)) if vmap else idx
                v = fn(*b)
                memo[key] = v
                for i in idx:
                    if not is_num(i):
                        ctx().hold(ex(i))
            return v
        return rd

    def item(self, *a):
        if builtin_len(a):
            return self.at(*a)
        if self.ndim == 0:
            return self.at()
        if builtin_all(is_num(d) and d == 1 for d in self.shape):
            return self.at(*[0] * self.ndim)
        raise Unsupported("item() of a non-scalar array")

    @property
    def ndim(self):
        return builtin_len(self.shape)

    @property
    def size(self):
        return prod(self.shape)

    @property
    def dtype(self):
        return DType(self.kind)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        return self.transpose()

    def transpose(self, *axes):
        if builtin_len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(reversed(builtin_range(self.ndim)))
        axes = tuple(norm_index(a) for a in axes)
        inv = [axes.index(k) for k in builtin_range(self.ndim)]
        return self.view_of([self.shape[a] for a in axes],
                            lambda *i: tuple(i[inv[k]] for k in builtin_range(builtin_len(i))),
                            lambda *b: (True, tuple(b[a] for a in axes)))

    def view_of(self, shape, m, inv):
        """a view: m maps new index -> own index; inv own index -> (cond, new index)"""
        vm, vi = self.vmap, self.vinv

        def vmap(*i):
            j = m(*i)
            return vm(*j) if vm else j

        def vinv(*b):
            if vi:
                c, j = vi(*b)
            else:
                c, j = True, b
            if inv is None:
                raise Unsupported("writing through this kind of view")
            c2, k = inv(*j)
            return cand(c, c2), k
        return SymArray(shape, None, self.kind, buf=self.buf, vmap=vmap, vinv=vinv,
                        base=self.base if self.base is not None else self)

    def copy(self, order="C"):
        return SymArray(self.shape, self.snap(), self.kind)

    def __deepcopy__(self, memo):
        return self.copy()

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        d = self.shape[0]
        if is_num(d):
            return d
        raise Unsupported("builtin len() of a symbolic length")

    def __iter__(self):
        d = self.shape[0]
        if not is_num(d):
            raise Unsupported("iteration over a symbolic length outside a contracted loop")
        for k in builtin_range(d):
            yield self[k]

    def __bool__(self):
        if builtin_all(is_num(d) and d == 1 for d in self.shape):
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous")

    def __format__(self, s):
        return "<array>"

    def __repr__(self):
        return f"SymArray{self.shape}:{self.kind}"

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    @property
    def flat(self):
        return self.reshape(-1).copy()

    def tolist(self):
        if builtin_all(is_num(d) for d in self.shape):
            def rec(pre, sh):
                if not sh:
                    return self.at(*pre)
                return [rec(pre + [k], sh[1:]) for k in builtin_range(sh[0])]
            return rec([], list(self.shape))
        if self.ndim == 1:
            return SymList(self.shape[0], self.snap())
        raise Unsupported("tolist")

    # ---- reshape
    def reshape(self, *shape, order="C"):
        if builtin_len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [norm_dim(s) for s in shape]
        if order is None:
            order = "C"
        if order not in ("C", "F"):
            raise Unsupported("reshape order")
        old = list(self.shape)
        tot = prod(old)
        if builtin_any(is_num(s) and s == -1 for s in shape):
            k = [is_num(s) and s == -1 for s in shape].index(True)
            rest = prod([s for j, s in builtin_enumerate(shape) if j != k])
            q = div_exact(tot, rest)
            shape[k] = q
        else:
            r = dims_equal(prod(shape), tot)
            if r is False:
                raise ValueError("cannot reshape array")
            if r is None:
                ctx().need(ex(prod(shape)) == ex(tot), "reshape keeps the number of elements")
        if order == "F":
            a = SymArray(self.shape[::-1], None, self.kind, buf=self.buf,
                         vmap=(lambda *i: (self.vmap(*i[::-1]) if self.vmap else i[::-1])),
                         vinv=None)
            r = a.reshape(*shape[::-1])
            return r.transpose()
        m = reindex(shape, old)
        mi = reindex(old, shape)
        link_axes(shape, old, m)
        link_axes(old, shape, mi)
        return self.view_of(shape, m, lambda *b: (True, mi(*b)))

    def ravel(self, order="C"):
        return self.reshape(-1, order=order)

    def flatten(self, order="C"):
        return self.reshape(-1, order=order).copy()

    def squeeze(self, *a):
        keep = [k for k, d in builtin_enumerate(self.shape) if not (is_num(d) and d == 1)]
        return self.view_of([self.shape[k] for k in keep],
                            lambda *i: scatter(i, keep, self.ndim), lambda *b: (True, tuple(b[k] for k in keep)))

    def view(self, t=None):
        if isinstance(t, DType) and t.kind == "V":
            if self.ndim != 2:
                raise Unsupported("void view")
            ctx().explorer and check_void(t, self)
            return RowView(self)
        if t is None:
            return self.view_of(self.shape, lambda *i: i, lambda *b: (True, b))
        if isinstance(t, DType) and t.kind == self.kind:
            return self
        raise Unsupported("view")

    # ---- conversions
    def astype(self, t, *a, **k):
        kd = kind_of(t)
        if k.get("copy") is False and kd == self.kind:
            return self
        r = self.snap()
        return SymArray(self.shape, lambda *i: cast_scalar(r(*i), kd), kd)

    def fill(self, v):
        self[...] = v

    # ---- indexing
    def __contains__(self, x):
        if is_num(self.size) and self.size == 0:
            return False
        return bool(any(self == x))

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- arithmetic
    def _ew(self, o, f, kind=None, rev=False):
        if o is None or isinstance(o, str):
            return NotImplemented
        return elementwise(f, (o, self) if rev else (self, o), kind)

    def __add__(self, o): return self._ew(o, op_add)
    def __radd__(self, o): return self._ew(o, op_add, rev=True)
    def __sub__(self, o): return self._ew(o, op_sub)
    def __rsub__(self, o): return self._ew(o, op_sub, rev=True)
    def __mul__(self, o):
        if isinstance(o, Matrix):
            return NotImplemented
        return self._ew(o, op_mul)
    def __rmul__(self, o): return self._ew(o, op_mul, rev=True)
    def __truediv__(self, o): return self._ew(o, op_div)
    def __rtruediv__(self, o): return self._ew(o, op_div, rev=True)
    def __floordiv__(self, o): return self._ew(o, floordiv)
    def __mod__(self, o): return self._ew(o, pymod)
    def __neg__(self): return elementwise(lambda a: -a, (self,))
    def __pos__(self): return self
    def __abs__(self): return absolute(self)
    def __pow__(self, o):
        if isinstance(o, SymArray):
            return self._ew(o, lambda a, b: a ** b)
        if is_num(o):
            return elementwise(lambda a: spow(a, o), (self,))
        return elementwise(lambda a: a ** o, (self,))
    def __lt__(self, o): return self._ew(o, lambda a, b: a < b, "b")
    def __le__(self, o): return self._ew(o, lambda a, b: a <= b, "b")
    def __gt__(self, o): return self._ew(o, lambda a, b: a > b, "b")
    def __ge__(self, o): return self._ew(o, lambda a, b: a >= b, "b")
    def __eq__(self, o):
        if o is None:
            return False
        return self._ew(o, lambda a, b: a == b, "b")
    def __ne__(self, o):
        if o is None:
            return True
        return self._ew(o, lambda a, b: a != b, "b")
    def __and__(self, o): return self._ew(o, op_and, "b")
    __rand__ = __and__
    def __or__(self, o): return self._ew(o, op_or, "b")
    __ror__ = __or__
    def __invert__(self): return elementwise(op_not, (self,), "b")

    def _inplace(self, o, f):
        r = elementwise(f, (self, o))
        if self.kind == "i" and r.kind == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        for a, b in zip(self.shape[::-1], r.shape[::-1]):
            pass
        self[...] = r
        return self

    def __iadd__(self, o): return self._inplace(o, op_add)
    def __isub__(self, o): return self._inplace(o, op_sub)
    def __imul__(self, o): return self._inplace(o, op_mul)
    def __itruediv__(self, o): return self._inplace(o, op_div)

    def __matmul__(self, o): return dot(self, o)

    # ---- methods
    def sum(self, axis=None, **k): return sum(self, axis, **k)
    def min(self, axis=None, **k): return amin(self, axis, **k)
    def max(self, axis=None, **k): return amax(self, axis, **k)
    def any(self, axis=None, **k): return any(self, axis, **k)
    def all(self, axis=None, **k): return all(self, axis, **k)
    def mean(self, axis=None, **k): return mean(self, axis, **k)
    def prod(self, axis=None, **k): return prod_(self, axis, **k)
    def argmax(self, axis=None): return argmax(self, axis)
    def ptp(self, axis=None): return ptp(self, axis)
    def dot(self, o): return dot(self, o)
    def argsort(self, axis=-1, kind=None): return argsort(self, axis)
    def argmin(self, axis=None): return argmin(self, axis)
    def cumsum(self, axis=None): return cumsum(self)
    def diagonal(self): raise Unsupported("diagonal")
    def nonzero(self): return where(self)
    def take(self, ix, axis=None):
        if axis in (0,):
            return self[ix]
        raise Unsupported("take")
    def repeat(self, n, axis=None): return repeat(self, n, axis)
    def clip(self, lo, hi): return clip(self, lo, hi)
    def round(self, *a): return round_(self)
    def sort(self, axis=-1):
        self[...] = sort(self, axis)

    def iscontiguous(self):
        return True


def op_add(a, b):
    if both_bool(a, b):
        return op_or(a, b)
    return a + b
def op_sub(a, b): return a - b
def op_mul(a, b):
    if both_bool(a, b):
        return op_and(a, b)
    return a * b


def both_bool(a, b):
    def isb(x):
        return isinstance(x, bool) or (isinstance(x, S) and x.kind == "b")
    return isb(a) and isb(b)


def op_div(a, b):
    if is_num(a) and is_num(b):
        if b == 0:
            raise Unsupported("division by the constant zero")
        return frac(a) / frac(b)
    return S(real(a) / real(b))


def op_and(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a and b
    return S(z3.And(boolx(a), boolx(b)))


def op_or(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a or b
    return S(z3.Or(boolx(a), boolx(b)))


def op_not(a):
    if isinstance(a, bool):
        return not a
    return S(z3.Not(boolx(a)))


def cand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return S(z3.And(boolx(a), boolx(b)))


def scatter(i, keep, n):
    r = [0] * n
    for k, v in zip(keep, i):
        r[k] = v
    return tuple(r)


def div_exact(a, b):
    if is_num(a) and is_num(b):
        if b == 0 or a % b:
            raise ValueError("cannot reshape array")
        return a // b
    if is_num(b) and b == 1:
        return a
    # symbolic: a == b*q
    if not is_num(a):
        ea = z3.simplify(ex(a), som=True)
        q = None
        if is_num(b):
            # try syntactic division of a linear combination
            q = divide_linear(ea, b)
        else:
            q = divide_product(ea, z3.simplify(ex(b), som=True))
        if q is not None:
            return norm_dim(S(q))
        if is_num(b):
            ctx().need(ea % b == 0, "reshape divides the number of elements")
            return S(z3.simplify(ea / b))
    raise Unsupported("reshape with inferred symbolic dimension")


def divide_linear(e, b):
    if z3.is_int_value(e):
        return z3.IntVal(e.as_long() // b) if e.as_long() % b == 0 else None
    if z3.is_add(e):
        qs = [divide_linear(c, b) for c in e.children()]
        if builtin_any(q is None for q in qs):
            return None
        return z3.simplify(z3.Sum(*qs))
    if z3.is_mul(e):
        ch = e.children()
        if z3.is_int_value(ch[0]) and ch[0].as_long() % b == 0:
            k = ch[0].as_long() // b
            r = z3.IntVal(k)
            for c in ch[1:]:
                r = r * c
            return z3.simplify(r)
    return None


def divide_product(e, d):
    if z3.eq(e, d):
        return z3.IntVal(1)
    if z3.is_mul(e):
        ch = e.children()
        for k, c in builtin_enumerate(ch):
            if z3.eq(c, d):
                rest = ch[:k] + ch[k + 1:]
                r = rest[0]
                for c2 in rest[1:]:
                    r = r * c2
                return r
    return None


def reindex(new, old):
    """C-order index map from shape `new` to shape `old` (same total)"""
    new, old = list(new), list(old)
    # strip equal leading dims
    lead = 0
    while lead < builtin_len(new) and lead < builtin_len(old) and dim_eq(new[lead], old[lead]):
        lead += 1
    n2, o2 = new[lead:], old[lead:]
    n1 = [k for k, d in builtin_enumerate(n2)]

    def m(*i):
        head, tail = i[:lead], i[lead:]
        # linear index inside tail
        lin = 0
        for d, j in zip(n2, tail):
            if is_num(lin) and lin == 0:
                lin = j
            else:
                lin = lin * d + j
        out = []
        if not o2:
            return head
        if builtin_any(not is_num(d) for d in o2[1:]):
            # last axis first
            rem, last = lin, builtin_len(o2) - 1
            for k in builtin_range(last, -1, -1):
                d = o2[k]
                if is_num(d) and d == 1:
                    out.insert(0, 0)
                elif builtin_all(is_num(x) and x == 1 for x in o2[:k]):
                    out.insert(0, rem)
                    rem = 0
                else:
                    rem, r = divmod_sym(rem, d, n2, tail, k)
                    out.insert(0, r)
            return tuple(head) + tuple(out)
        # decompose
        strides = []
        for k in builtin_range(builtin_len(o2)):
            strides.append(prod(o2[k + 1:]))
        rem = lin
        single = [k for k, d in builtin_enumerate(o2) if not (is_num(d) and d == 1)]
        for k, d in builtin_enumerate(o2):
            if is_num(d) and d == 1:
                out.append(0)
                continue
            st = strides[k]
            if is_num(st) and st == 1:
                q = rem
                rem = 0
            else:
                q, rem = divmod_sym(rem, st, n2, tail, k)
            out.append(q)
        return tuple(head) + tuple(out)
    return m


def link_axes(new, old, m):
    """an index of the longer leading axis also names an index of the axis it was split from"""
    if not new or not old or is_num(new[0]) or is_num(old[0]):
        return
    if builtin_any(not is_num(d) for d in list(new[1:]) + list(old[1:])):
        return
    a, b = prod(new[1:]), prod(old[1:])
    if a >= b or dim_eq(new[0], old[0]):
        return
    c = ctx()
    if not c.once(("link", c.hold(z3.simplify(ex(new[0]), som=True)), c.hold(z3.simplify(ex(old[0]), som=True)))):
        return
    zeros_ = [0] * (builtin_len(new) - 1)

    def f(i):
        c.note(old[0], ex(m(i, *zeros_)[0]))
        return z3.BoolVal(True)
    c.assume_all([new[0]], f, "link")


def divmod_sym(a, b, n2, tail, k):
    if is_num(a) and is_num(b):
        return a // b, a % b
    if is_num(b):
        # try linear simplification a = b*q + r with constant-bounded r
        q, r = split_linear(a, b)
        if q is not None:
            return q, r
        return S(z3.simplify(ex(a) / b)), S(z3.simplify(ex(a) % b))
    # symbolic divisor: a = q*b + r was built from indices?
    e = z3.simplify(ex(a), som=True)
    if z3.is_int_value(e) and e.as_long() == 0:
        return 0, 0
    c = ctx()
    if z3.is_const(ex(b)):
        # e = b*x + rest with rest known to lie in [0, b)
        be, x, rest = ex(b), [], []
        for t in (e.children() if z3.is_add(e) else [e]):
            fs = [t]
            while builtin_any(z3.is_mul(f) for f in fs):
                fs = [g for f in fs for g in (f.children() if z3.is_mul(f) else [f])]
            hit = [j for j, f in builtin_enumerate(fs) if f.eq(be)]
            if hit:
                fs.pop(hit[0])
                x.append(z3.Product(fs) if builtin_len(fs) > 1 else fs[0] if fs else z3.IntVal(1))
            else:
                rest.append(t)
        if x:
            rs = z3.Sum(rest) if rest else z3.IntVal(0)
            if c.implied(z3.And(rs >= 0, rs < be)):
                return S(z3.simplify(z3.Sum(x))), S(z3.simplify(rs))
    # use fresh quotient/remainder with defining facts
    key = ("divmod", c.hold(e), c.hold(z3.simplify(ex(b), som=True)))
    kk = (key[1].get_id(), key[2].get_id())
    tab = c.__dict__.setdefault("divtab", {})
    if kk not in tab:
        q, r = c.fresh("q", I), c.fresh("r", I)
        be = ex(b)
        c.fact(z3.Implies(be > 0, z3.And(e == q * be + r, r >= 0, r < be)))
        c.fact(z3.Implies(z3.And(be > 0, e >= 0), q >= 0))
        tab[kk] = (q, r)
    q, r = tab[kk]
    return S(q), S(r)


def split_linear(a, b):
    """a = b*q + r  syntactically, with r an index bounded by construction (constant 0<=r<b)"""
    e = z3.simplify(ex(a), som=True)
    terms = e.children() if z3.is_add(e) else [e]
    q, r = [], []
    for t in terms:
        if z3.is_int_value(t):
            v = t.as_long()
            q.append(z3.IntVal(v // b))
            r.append(v % b)
        elif z3.is_mul(t) and z3.is_int_value(t.children()[0]) and t.children()[0].as_long() % b == 0:
            k = t.children()[0].as_long() // b
            x = z3.IntVal(k)
            for c in t.children()[1:]:
                x = x * c
            q.append(x)
        elif b == 1:
            q.append(t)
        else:
            return None, None
    rr = builtin_sum(r)
    if rr >= b:
        return None, None
    return norm_index(S(z3.simplify(z3.Sum(*q)) if q else z3.IntVal(0))), rr


# ------------------------------------------------------------------ lists
class SymList:
    """python list of symbolic length"""
    n, get = Timed(), Timed()

    def __init__(self, n, get):
        self.n = norm_dim(n)
        self.get = frozen(get)

    def __iter__(self):
        if is_num(self.n):
            for k in builtin_range(self.n):
                yield self.get(k)
            return
        raise Unsupported("iteration over a list of symbolic length outside a contracted loop")

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.start is None and k.stop is None and k.step == -1:
                return SymList(self.n, lambda i: self.get(norm_index(self.n - 1 - i)))
            if k.step in (None, 1):
                lo = 0 if k.start is None else k.start
                hi = self.n if k.stop is None else k.stop
                lo, hi = slice_bounds(lo, hi, self.n)
                return SymList(hi - lo, lambda i: self.get(norm_index(i + lo)))
            raise Unsupported("list slice")
        k = norm_index(k)
        if is_num(k) and k < 0:
            k = norm_index(self.n + k)
        bounds_check(k, self.n, "list index in range")
        if not is_num(self.n):
            ctx().note(self.n, ex(k))
        return self.get(k)

    def __len__(self):
        if is_num(self.n):
            return self.n
        raise Unsupported("len")

    def append(self, x):
        if not isinstance(x, (S, int, float)):
            raise Unsupported("append to a list of symbolic length")
        n, old = self.n, self.get
        self.n = norm_dim(n + 1)

        def get(i):
            ctx().note(n, ex(i))
            return ite(eqc(i, n), x, old(i))
        self.get = frozen(get)

    def __bool__(self):
        return bool(S(ex(self.n) > 0))


def bounds_check(k, n, what="index in range"):
    if is_num(k) and is_num(n):
        if not 0 <= k < n:
            raise IndexError(f"index {k} is out of bounds for axis with size {n}")
        return
    c = ctx()
    if c.unchecked:
        return
    e = z3.And(ex(k) >= 0, ex(k) < ex(n))
    # python raises IndexError: fork when it is possible
    if c.entails(e):
        return
    if not c.decide(e):
        raise IndexError("index out of bounds")


def item_of(a, i):
    """element i of an iteration over a: in range by the semantics of iteration"""
    c = ctx()
    old = c.unchecked
    c.unchecked = True
    try:
        return a[i]
    finally:
        c.unchecked = old


# ------------------------------------------------------------------ construction
def asarray(x, dtype=None, **kw):
    k = kind_of(dtype) if dtype is not None else None
    if isinstance(x, Matrix):
        x = x.a
    if isinstance(x, SymArray):
        return x if k in (None, x.kind) else x.astype(dtype)
    if isinstance(x, SymList):
        return stack_list(x, k)
    if isinstance(x, (list, tuple)):
        return from_nested(x, k)
    if isinstance(x, S) or is_num(x) or isinstance(x, bool):
        v = cast_scalar(x, k)
        return SymArray((), lambda: v, scalar_kind(v))
    if hasattr(x, "__next__") or isinstance(x, builtin_range):
        return from_nested(list(x), k)
    if x is None:
        raise Unsupported("object array")
    try:
        import numpy as _n
        if isinstance(x, _n.ndarray):
            return from_nested(x.tolist(), k)
    except ImportError:
        pass
    raise Unsupported(f"array of {type(x).__name__}")


def array(x, dtype=None, copy=True, ndmin=0, **kw):
    plain_kw(kw, ("subok", "like"))
    a = asarray(x, dtype)
    if copy:
        a = a.copy()
    while a.ndim < ndmin:
        a = expand_dims(a, 0)
    return a


def scalar_kind(v):
    if isinstance(v, bool):
        return "b"
    if isinstance(v, int):
        return "i"
    if isinstance(v, S):
        return v.kind
    return "f"


def join_kinds(ks):
    ks = set(ks)
    if "f" in ks:
        return "f"
    if "i" in ks:
        return "i"
    return "b" if ks else "f"


def stack_list(x, k=None):
    n = x.n
    if is_num(n):
        return from_nested([x.get(j) for j in builtin_range(n)], k)
    probe_i = ctx().fresh("probe", I)
    el = x.get(S(probe_i))
    if isinstance(el, (S, int, float, Fraction, bool)):
        kd = k or scalar_kind(el)
        return SymArray((n,), lambda i: cast_scalar(x.get(i), kd), kd)
    a = asarray(el)
    if builtin_any(not is_num(d) for d in a.shape):
        raise Unsupported("ragged or symbolic inner shape")
    kd = k or a.kind
    return SymArray((n,) + a.shape, lambda i, *r: cast_scalar(asarray(x.get(i)).at(*r), kd), kd)


def from_nested(x, k=None):
    if builtin_len(x) == 0:
        return SymArray((0,), lambda i: 0.0, k or "f")
    if builtin_any(isinstance(e, (SymArray, list, tuple, SymList)) for e in x):
        subs = [asarray(e) for e in x]
        sh = subs[0].shape
        for s in subs[1:]:
            if s.ndim != builtin_len(sh):
                raise ValueError("setting an array element with a sequence")
            for a, b in zip(s.shape, sh):
                r = dims_equal(a, b)
                if r is False:
                    raise ValueError("inhomogeneous shape")
                if r is None:
                    raise Unsupported("stack of arrays of unknown relative size")
        kd = k or join_kinds(s.kind for s in subs)
        rd = [s.snap() for s in subs]
        return SymArray((builtin_len(x),) + sh,
                        lambda i, *r: select([lambda f=f: cast_scalar(f(*r), kd) for f in rd], i), kd)
    vals = [cast_scalar(e if not isinstance(e, SymArray) else e.item(), k) for e in x]
    kd = k or join_kinds(scalar_kind(v) for v in vals)
    vals = [cast_scalar(v, kd) for v in vals]
    return SymArray((builtin_len(vals),), lambda i: select([lambda v=v: v for v in vals], i), kd)


def select(thunks, i):
    if is_num(i):
        if not 0 <= i < builtin_len(thunks):
            return thunks[builtin_max(0, builtin_min(i, builtin_len(thunks) - 1))]()
        return thunks[i]()
    r = thunks[-1]()
    for k in builtin_range(builtin_len(thunks) - 2, -1, -1):
        r = ite(S(ex(i) == k), thunks[k](), r)
    return r


def shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(norm_dim(x) for x in s)
    if isinstance(s, SymArray):
        return tuple(norm_dim(x) for x in s.tolist())
    return (norm_dim(s),)


def zeros(shape, dtype=float, order="C"):
    k = kind_of(dtype)
    z = {"f": 0.0, "i": 0, "b": False}[k]
    return SymArray(shp(shape), lambda *i: z, k)


def ones(shape, dtype=float):
    k = kind_of(dtype)
    z = {"f": 1.0, "i": 1, "b": True}[k]
    return SymArray(shp(shape), lambda *i: z, k)


def empty(shape, dtype=float, order="C"):
    k = kind_of(dtype)
    sh = shp(shape)
    if builtin_any(is_num(d) and d == 0 for d in sh):
        return zeros(shape, dtype)
    f = ctx().fresh_fn("empty", *([I] * builtin_len(sh)), SORT[k])
    return SymArray(sh, lambda *i: S(f(*[ex(j) for j in i])), k)


def full(shape, v, dtype=None):
    k = kind_of(dtype) if dtype is not None else scalar_kind(v)
    v = cast_scalar(v, k)
    return SymArray(shp(shape), lambda *i: v, k)


def zeros_like(a, dtype=None):
    a = asarray(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None):
    a = asarray(a)
    return ones(a.shape, dtype or a.dtype)


def empty_like(a, dtype=None):
    a = asarray(a)
    return empty(a.shape, dtype or a.dtype)


def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype or a.dtype)


def arange(*a, dtype=None):
    a = [x for x in a]
    if builtin_len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif builtin_len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not (is_num(st) and st == 1) or scalar_kind(lo) == "f" or scalar_kind(hi) == "f":
        return arange_f(lo, hi, st)
    n = clamp0(norm_dim(hi - lo))
    return SymArray((n,), lambda i: i + lo if not (is_num(lo) and lo == 0) else i, "i")


def arange_f(lo, hi, st):
    """ceil((hi-lo)/st) points lo + i*st  (st > 0)"""
    c = ctx()
    c.need(real(st) > 0, "arange step is positive")
    n = c.fresh("na", I)
    L = (real(hi) - real(lo)) / real(st)
    c.fact(z3.And(n >= 0, z3.Implies(L <= 0, n == 0), z3.Implies(L > 0, z3.And(z3.ToReal(n) >= L, z3.ToReal(n) < L + 1))))
    # same facts without division
    d, s = real(hi) - real(lo), real(st)
    c.fact(z3.Implies(d > 0, z3.And(z3.ToReal(n) * s >= d, z3.ToReal(n) * s < d + s)))
    if getattr(c, "arange_log", None) is not None:
        c.arange_log.append(S(n))
    return SymArray((S(n),), lambda i: S(real(lo) + real(i) * s), "f")


def clamp0(n):
    if is_num(n):
        return builtin_max(n, 0)
    if ctx().implied(ex(n) >= 0):
        return n
    return S(z3.If(ex(n) >= 0, ex(n), 0))


def linspace(lo, hi, n=50, endpoint=True, dtype=None):
    n = norm_dim(n)
    nn = n if not endpoint else n - 1

    def el(i):
        if is_num(nn) and nn == 0:
            return S(real(lo))
        return S(real(lo) + real(i) * (real(hi) - real(lo)) / real(nn))
    if not is_num(nn) and endpoint:
        return SymArray((n,), lambda i: ite(S(ex(nn) == 0), S(real(lo)), el(i)), "f")
    return SymArray((n,), el, "f")


# ------------------------------------------------------------------ broadcasting
def bshape(shapes):
    nd = builtin_max([builtin_len(s) for s in shapes] or [0])
    out = []
    for k in builtin_range(nd):
        ds = []
        for s in shapes:
            j = k - (nd - builtin_len(s))
            if j >= 0:
                ds.append(s[j])
        d = 1
        for x in ds:
            if is_num(x) and x == 1:
                continue
            if is_num(d) and d == 1:
                d = x
                continue
            r = dims_equal(d, x)
            if r is False:
                raise ValueError("operands could not be broadcast together")
            if r is None:
                # one of them may be 1 or unequal at run time: not decidable here
                c = ctx()
                if not c.decide(z3.simplify(ex(d) == ex(x))):
                    if c.implied(ex(x) == 1):
                        continue
                    if c.implied(ex(d) == 1):
                        d = x
                        continue
                    if c.decide(z3.simplify(ex(x) == 1)):
                        continue
                    if c.decide(z3.simplify(ex(d) == 1)):
                        d = x
                        continue
                    raise ValueError("operands could not be broadcast together")
            if not is_num(d) and is_num(x):
                d = x
        out.append(d)
    return tuple(out)


def bread(a, out):
    """reader of array a for indices of the broadcast shape"""
    rd = a.snap()
    off = builtin_len(out) - a.ndim
    one = []
    for k, d in builtin_enumerate(a.shape):
        o = out[off + k]
        if is_num(d) and d == 1 and not (is_num(o) and o == 1):
            one.append(True)
        elif not is_num(d) and dim_eq(d, o) is None and ctx().implied(ex(d) == 1):
            one.append(True)
        else:
            one.append(False)

    def r(*i):
        j = i[off:]
        return rd(*[0 if z else x for x, z in zip(j, one)])
    return r


def is_arr(x):
    return isinstance(x, (SymArray, list, tuple, SymList, Matrix))


def elementwise(f, args, kind=None):
    args = [x.a if isinstance(x, Matrix) else x for x in args]
    if not builtin_any(is_arr(x) for x in args):
        return f(*args)
    arrs = [asarray(x) for x in args]
    out = bshape([a.shape for a in arrs])
    rds = [bread(a, out) for a in arrs]

    def el(*i):
        return f(*[r(*i) for r in rds])
    if kind is None:
        # numpy result kind: probe with the operand kinds
        probe = f(*[{"f": S(z3.Real("probe_f")), "i": S(z3.Int("probe_i")), "b": S(z3.Bool("probe_b"))}[a.kind] for a in arrs])
        kind = scalar_kind(probe)
    return SymArray(out, el, kind)


def plain_kw(kw, ok=()):
    """keywords without a contract must not be ignored"""
    for k, v in kw.items():
        if k in ok or v is None or (k == "where" and v is True) or (k == "keepdims" and v is False):
            continue
        if k == "dtype" and kind_of(v) == "f":
            continue
        if k in ("casting", "order"):
            continue
        raise Unsupported(f"keyword {k}")


def kept(a, axis, r, keepdims):
    """reduction result with the reduced axis kept"""
    if not keepdims:
        return r
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    if ax is None:
        return reshape(asarray(r), (1,) * a.ndim)
    return expand_dims(asarray(r), ax)


def ufunc2(f, kind=None):
    def u(a, b, out=None, **kw):
        plain_kw(kw)
        if not is_arr(a) and not is_arr(b):
            return f(a, b)
        r = elementwise(f, (a, b), kind)
        if out is not None:
            out[...] = r
            return out
        return r
    return u


def ufunc1(f, kind=None):
    def u(a, out=None, **kw):
        plain_kw(kw)
        if not is_arr(a):
            return f(a)
        r = elementwise(f, (a,), kind)
        if out is not None:
            out[...] = r
            return out
        return r
    return u


class UF:
    def __init__(self, f, kind=None, name=""):
        self.f, self.kind, self.name = f, kind, name
        self._u = ufunc2(f, kind)

    def __call__(self, *a, **k):
        return self._u(*a, **k)

    def reduce(self, seq, axis=0):
        if isinstance(seq, SymList) and not is_num(seq.n):
            return reduce_symlist(self, seq)
        if isinstance(seq, (list, tuple, SymList)):
            seq = list(seq)
            if not seq:
                raise ValueError("zero-size array to reduction operation which has no identity")
            r = seq[0]
            for x in seq[1:]:
                r = self(r, x)
            return asarray(r).copy() if is_arr(r) else r
        if isinstance(seq, SymArray) and is_num(seq.shape[0]):
            return self.reduce([seq[k] for k in builtin_range(seq.shape[0])])
        if isinstance(seq, SymArray):
            if self.name == "minimum":
                return amin(seq, axis)
            if self.name == "maximum":
                return amax(seq, axis)
        raise Unsupported("ufunc reduce")

    class _Outer:
        pass

    def outer(self, a, b):
        a, b = asarray(a), asarray(b)
        ra, rb, na = a.snap(), b.snap(), a.ndim
        return SymArray(a.shape + b.shape, lambda *i: self.f(ra(*i[:na]), rb(*i[na:])),
                        join_kinds([a.kind, b.kind]))


def reduce_symlist(uf, seq):
    """min/max over a symbolic number of arrays: lower/upper bound and attained"""
    if uf.name not in ("minimum", "maximum"):
        raise Unsupported("reduce over symbolic list")
    c = ctx()
    n = seq.n
    if not c.decide(ex(n) > 0):
        raise ValueError("zero-size array to reduction operation which has no identity")
    le = (lambda a, b: a <= b) if uf.name == "minimum" else (lambda a, b: a >= b)
    el0 = asarray(seq.get(S(c.fresh("probe", I))))
    sh = el0.shape
    f = c.fresh_fn(uf.name, *([I] * builtin_len(sh)), R)
    w = c.fresh_fn("arg" + uf.name, *([I] * builtin_len(sh)), I)

    def el(*i):
        ii = [ex(j) for j in i]
        v = f(*ii)
        if c.once(("red", v)):
            k = w(*ii)
            c.fact(z3.And(k >= 0, k < ex(n)))
            c.note(n, k)
            c.fact(v == real(asarray(seq.get(S(k))).at(*i)))
            c.assume_all(n, lambda j: le(S(v), asarray(seq.get(j)).at(*i)))
        return S(v)
    return SymArray(sh, el, "f")


minimum = UF(smin, None, "minimum")
maximum = UF(smax, None, "maximum")
fmin, fmax = minimum, maximum
add = UF(op_add, None, "add")
subtract = UF(op_sub, None, "subtract")
multiply = UF(op_mul, None, "multiply")
divide = true_divide = UF(op_div, "f", "divide")
floor_divide = UF(floordiv)
logical_and = UF(op_and, "b")
logical_or = UF(op_or, "b")
equal = UF(lambda a, b: a == b, "b")
not_equal = UF(lambda a, b: a != b, "b")
less = UF(lambda a, b: a < b, "b")
less_equal = UF(lambda a, b: a <= b, "b")
greater = UF(lambda a, b: a > b, "b")
greater_equal = UF(lambda a, b: a >= b, "b")
_power = UF(lambda a, b: a ** b)


def power(a, b, **kw):
    plain_kw(kw)
    if is_num(b) and is_arr(a):
        return asarray(a) ** b
    return _power(a, b)
mod = remainder = UF(pymod)


def hypot_s(a, b):
    return ssqrt(a * a + b * b)


hypot = UF(hypot_s, "f")
logical_not = ufunc1(op_not, "b")
sqrt = ufunc1(ssqrt, "f")
cos = ufunc1(scos, "f")
sin = ufunc1(ssin, "f")
arccos = ufunc1(sacos, "f")
negative = ufunc1(lambda a: -a)
square = ufunc1(lambda a: a * a)
sign = ufunc1(lambda a: sgn(a) if isinstance(a, S) else (a > 0) - (a < 0))


def sabs(a):
    return builtin_abs(a)


absolute = abs = fabs = ufunc1(sabs)


def sfloor(a):
    if is_num(a):
        return math.floor(a) * 1.0
    return S(z3.ToReal(z3.ToInt(real(a))))


def sround(a):
    """round half to even; contract: |r - a| <= 1/2, integral"""
    if is_num(a):
        return float(round(a))
    c = ctx()
    e = z3.simplify(real(a), som=True)
    f = c.__dict__.setdefault("_roundfn", z3.Function("rint", R, I))
    t = f(e)
    if c.once(("round", t)):
        c.fact(z3.And(z3.ToReal(t) - e <= z3.RealVal("1/2"), e - z3.ToReal(t) <= z3.RealVal("1/2")))
    return S(z3.ToReal(t))


floor = ufunc1(sfloor, "f")
ceil = ufunc1(lambda a: -sfloor(-a), "f")
round_ = ufunc1(sround, "f")
rint = round_


def around(a, decimals=0, out=None):
    if decimals:
        raise Unsupported("round decimals")
    return round_(a)


def isnan(a):
    """arrays hold numbers"""
    return elementwise(lambda x: False, (a,), "b") if is_arr(a) else False


isinf = isnan


def isfinite(a):
    return elementwise(lambda x: True, (a,), "b") if is_arr(a) else True


def clip(a, lo=None, hi=None, out=None, **kw):
    lo, hi = kw.pop("a_min", kw.pop("min", lo)), kw.pop("a_max", kw.pop("max", hi))
    plain_kw(kw)
    if out is not None:
        out[...] = clip(a, lo, hi)
        return out
    if lo is not None:
        a = maximum(a, lo)
    if hi is not None:
        a = minimum(a, hi)
    return a


def isscalar(x):
    return isinstance(x, (S, int, float, complex, str, Fraction, bool))


def iterable(x):
    return is_arr(x)


# ------------------------------------------------------------------ reductions
def norm_axis(axis, nd):
    if axis is None:
        return None
    axis = norm_index(axis)
    return axis + nd if axis < 0 else axis


class SumFn:
    """symbolic sums: one uninterpreted value per (array, outer index)"""


def sum(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    if keepdims:
        return kept(a, axis, sum(a, axis), True)
    if isinstance(axis, (tuple, list)):
        a = asarray(a)
        for ax in sorted((norm_axis(x, a.ndim) for x in axis), reverse=True):
            a = sum(a, ax)
        return a
    if isinstance(a, Sparse):
        return a.rowsum(axis)
    if isinstance(a, Matrix):
        a = a.a
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    rd = a.snap()
    kd = "i" if a.kind in "bi" else "f"

    def addup(vals):
        r = 0 if kd == "i" else 0.0
        first = True
        for v in vals:
            v = cast_scalar(v, kd) if a.kind == "b" else v
            r = v if first else r + v
            first = False
        return r
    if ax is None:
        if builtin_all(is_num(d) for d in a.shape):
            return addup(rd(*i) for i in itertools.product(*[builtin_range(d) for d in a.shape]))
        return big_sum(a, kd)
    d = a.shape[ax]
    rest = a.shape[:ax] + a.shape[ax + 1:]
    if is_num(d):
        return scalarise(SymArray(rest, lambda *i: addup(rd(*i[:ax], k, *i[ax:]) for k in builtin_range(d)), kd))
    if builtin_len(rest) == 0:
        return big_sum(a, kd)
    raise Unsupported("sum over a symbolic axis")


def scalarise(a):
    if a.ndim == 0:
        return a.at()
    return a


def big_sum(a, kd):
    """sum over all elements of an array with a symbolic length: an opaque value.
    Contract used: non-negative terms give a non-negative sum, bounded below by each term."""
    c = ctx()
    if getattr(c, "same_sums", False) and a.ndim == 1:
        n = a.shape[0]
        last = cumsum(a).at(S(ex(n) - 1))
        cumsum(a).at(S(z3.IntVal(0)))
        return ite(S(ex(n) <= 0), 0, last)
    sm = c.fresh("sum", SORT[kd])
    v = S(sm)
    rd = a.snap()
    nn = c.fresh("sumnn", B)
    c.sums = getattr(c, "sums", [])
    c.sums.append((sm, a.shape, rd, nn))
    w = [c.fresh("sumw", I) for _ in a.shape]
    # if all terms are >= 0 then the sum is >= each term; witness of a negative term otherwise
    rng = z3.And(*[z3.And(i >= 0, i < ex(d)) for i, d in zip(w, a.shape)])
    for i, d in zip(w, a.shape):
        c.note(d, i)
    c.fact(z3.Or(nn, z3.And(rng, num(rd(*[S(i) for i in w])) < 0)))
    c.assume_all(list(a.shape), lambda *i: z3.Implies(nn, v.e >= num(rd(*i))))
    c.fact(z3.Implies(nn, v.e >= 0))
    return v


def mean(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    if keepdims:
        return kept(a, axis, mean(a, axis), True)
    if isinstance(axis, (tuple, list)):
        raise Unsupported("multiple axes")
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    n = a.size if ax is None else a.shape[ax]
    return sum(a, axis) / n


def extremum(a, axis, is_min):
    a = asarray(a)
    if isinstance(axis, (tuple, list)):
        raise Unsupported("multiple axes")
    ax = norm_axis(axis, a.ndim)
    f = smin if is_min else smax
    rd = a.snap()
    if ax is None:
        dims = list(range_dims(a.ndim))
    else:
        dims = [ax]
    red = [a.shape[d] for d in dims]
    rest = [d for d in range_dims(a.ndim) if d not in dims]
    rsh = tuple(a.shape[d] for d in rest)
    if builtin_any(is_num(d) and d == 0 for d in red):
        raise ValueError("zero-size array to reduction operation which has no identity")

    def build(i, j):
        full = [None] * a.ndim
        for d, v in zip(rest, i):
            full[d] = v
        for d, v in zip(dims, j):
            full[d] = v
        return rd(*full)
    if builtin_all(is_num(d) for d in red):
        def el(*i):
            r = None
            for j in itertools.product(*[builtin_range(d) for d in red]):
                v = build(i, j)
                r = v if r is None else f(r, v)
            return r
        return scalarise(SymArray(rsh, el, a.kind))
    c = ctx()
    for d in red:
        if not is_num(d):
            if not c.decide(z3.simplify(ex(d) > 0)):
                raise ValueError("zero-size array to reduction operation which has no identity")
    memo = a.buf.__dict__.setdefault("extrema", {}) if a.vmap is None else {}
    mk = (a.buf.version, is_min, tuple(dims), id(c))
    if mk in memo:
        g, ws = memo[mk]
    else:
        g = c.fresh_fn("min" if is_min else "max", *([I] * builtin_len(rsh)), SORT[a.kind])
        ws = [c.fresh_fn("wit", *([I] * builtin_len(rsh)), I) for _ in dims]
        memo[mk] = g, ws

    def el(*i):
        ii = [ex(x) for x in i]
        v = g(*ii)
        if c.once(("ext", v)):
            k = [w(*ii) for w in ws]
            for kk, d in zip(k, red):
                c.fact(z3.And(kk >= 0, kk < ex(d)))
                c.note(d, kk)
            c.fact(v == cast_to(build(i, [S(x) for x in k]), a.kind))
            c.assume_all(red, lambda *j: (v <= cast_to(build(i, j), a.kind)) if is_min
                         else (v >= cast_to(build(i, j), a.kind)))
        return S(v)
    return scalarise(SymArray(rsh, el, a.kind))


def cast_to(v, kind):
    return {"f": real, "i": integer, "b": boolx}[kind](v)


def range_dims(n):
    return builtin_range(n)


def amin(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    if not is_arr(a):
        return a
    if keepdims:
        return kept(a, axis, amin(a, axis), True)
    return extremum(a, axis, True)


def amax(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    if not is_arr(a):
        return a
    if keepdims:
        return kept(a, axis, amax(a, axis), True)
    return extremum(a, axis, False)


min, max = amin, amax


def quant(a, axis, is_any):
    if not is_arr(a):
        return a if isinstance(a, bool) else S(boolx(a))
    a = asarray(a)
    ax = norm_axis(axis, a.ndim)
    rd = a.snap()
    dims = list(range_dims(a.ndim)) if ax is None else [ax]
    rest = [d for d in range_dims(a.ndim) if d not in dims]
    rsh = tuple(a.shape[d] for d in rest)
    red = [a.shape[d] for d in dims]

    def build(i, j):
        full = [None] * a.ndim
        for d, v in zip(rest, i):
            full[d] = v
        for d, v in zip(dims, j):
            full[d] = v
        return boolx(rd(*full))
    if builtin_all(is_num(d) for d in red):
        def el(*i):
            xs = [build(i, j) for j in itertools.product(*[builtin_range(d) for d in red])]
            return S(z3.simplify((z3.Or if is_any else z3.And)(*xs) if xs else z3.BoolVal(not is_any)))
        return scalarise(SymArray(rsh, el, "b"))
    c = ctx()
    g = c.fresh_fn("any" if is_any else "all", *([I] * builtin_len(rsh)), B)
    ws = [c.fresh_fn("qw", *([I] * builtin_len(rsh)), I) for _ in dims]

    def el(*i):
        ii = [ex(x) for x in i]
        v = g(*ii)
        if c.once(("quant", v)):
            k = [w(*ii) for w in ws]
            rng = []
            for kk, d in zip(k, red):
                rng.append(z3.And(kk >= 0, kk < ex(d)))
                c.note(d, kk)
            bw = build(i, [S(x) for x in k])
            if is_any:
                c.fact(z3.Implies(v, z3.And(*rng, bw)))
                c.assume_all(red, lambda *j: z3.Implies(build(i, j), v))
            else:
                c.fact(z3.Implies(z3.Not(v), z3.And(*rng, z3.Not(bw))))
                c.assume_all(red, lambda *j: z3.Implies(v, build(i, j)))
        return S(v)
    return scalarise(SymArray(rsh, el, "b"))


def any(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    if keepdims:
        return kept(a, axis, any(a, axis), True)
    return quant(a, axis, True)


def all(a, axis=None, keepdims=False, **kw):
    plain_kw(kw)
    if keepdims:
        return kept(a, axis, all(a, axis), True)
    return quant(a, axis, False)


def count_nonzero(a, axis=None):
    return sum(asarray(a).astype(bool), axis)


def argext(a, is_min):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("argmin of nd array")
    n = a.shape[0]
    rd = a.snap()
    if is_num(n):
        if n == 0:
            raise ValueError("attempt to get argmin of an empty sequence")
        best, bi = rd(0), 0
        for k in builtin_range(1, n):
            v = rd(k)
            lt = (v < best) if is_min else (v > best)
            best, bi = ite(lt, v, best), ite(lt, k, bi)
        return bi
    c = ctx()
    if not c.decide(z3.simplify(ex(n) > 0)):
        raise ValueError("attempt to get argmin of an empty sequence")
    k = c.fresh("argm", I)
    c.fact(z3.And(k >= 0, k < ex(n)))
    c.note(n, k)
    vk = num(rd(S(k)))
    if is_min:
        c.assume_all(n, lambda j: z3.And(vk <= num(rd(j)), z3.Implies(num(rd(j)) == vk, k <= ex(j))))
    else:
        c.assume_all(n, lambda j: z3.And(vk >= num(rd(j)), z3.Implies(num(rd(j)) == vk, k <= ex(j))))
    return S(k)


def argmin(a, axis=None):
    return argext(a, True)


def argmax(a, axis=None):
    return argext(a, False)


def cumsum(a, axis=None):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    n = a.shape[0]
    rd = a.snap()
    kd = "i" if a.kind in "bi" else "f"
    if is_num(n):
        vals, r = [], 0
        for k in builtin_range(n):
            r = r + rd(k) if k else rd(k)
            vals.append(r)
        return from_nested(vals, kd)
    c = ctx()
    # the cumulative sum of the same values is the same
    gen = z3.Int("!csum")
    key = (z3.simplify(num(rd(S(gen)))).get_id(), kd) if getattr(c, "same_sums", False) else None
    known = c.__dict__.setdefault("cumsums", {})
    if key in known:
        f = known[key][0]
    else:
        f = c.fresh_fn("cumsum", I, SORT[kd])
        if key is not None:
            known[key] = f, n, c.hold(z3.simplify(num(rd(S(gen)))))

    def el(i):
        v = f(ex(i))
        if c.once(("cs", v)):
            c.fact(z3.Implies(ex(i) == 0, v == num(rd(0))))
            c.fact(z3.Implies(ex(i) > 0, v == f(ex(i) - 1) + num(rd(i))))
        return S(v)
    return SymArray((n,), el, kd)


# ------------------------------------------------------------------ linear algebra
def dot(a, b):
    if isinstance(a, Matrix) or isinstance(b, Matrix):
        raise Unsupported("matrix dot")
    a, b = asarray(a), asarray(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    n = a.shape[-1]
    m = b.shape[0] if b.ndim == 1 else b.shape[-2]
    r = dims_equal(n, m)
    if r is False:
        raise ValueError("shapes not aligned")
    if not is_num(n):
        raise Unsupported("dot over a symbolic dimension")
    ra, rb = a.snap(), b.snap()
    na = a.ndim - 1
    rest_b = () if b.ndim == 1 else b.shape[:-2] + b.shape[-1:]

    def el(*i):
        ia, ib = i[:na], i[na:]
        r = None
        for k in builtin_range(n):
            y = rb(k) if b.ndim == 1 else rb(*ib[:-1], k, ib[-1])
            t = ra(*ia, k) * y
            r = t if r is None else r + t
        return S(canon(r.e)) if isinstance(r, S) else r
    return scalarise(SymArray(a.shape[:-1] + rest_b, el, join_kinds([a.kind, b.kind])))


matmul = dot


def cross(a, b, **kw):
    if kw.pop("axis", -1) != -1:
        raise Unsupported("cross along another axis")
    plain_kw(kw)
    a, b = asarray(a), asarray(b)
    sh = bshape([a.shape, b.shape])
    if not (is_num(sh[-1]) and sh[-1] == 3):
        raise Unsupported("cross of non-3 vectors")
    ra, rb = bread(a, sh), bread(b, sh)

    def el(*i):
        h, k = i[:-1], i[-1]

        def comp(p, q):
            return ra(*h, p) * rb(*h, q) - ra(*h, q) * rb(*h, p)
        return select([lambda: comp(1, 2), lambda: comp(2, 0), lambda: comp(0, 1)], k)
    return SymArray(sh, el, "f")


def einsum(spec, *ops, **kw):
    spec = spec.replace(" ", "")
    ins, out = spec.split("->")
    ins = ins.split(",")
    ops = [asarray(o) for o in ops]
    dims = {}
    for s, o in zip(ins, ops):
        if builtin_len(s) != o.ndim:
            raise ValueError("einsum subscripts")
        for ch, d in zip(s, o.shape):
            if ch in dims and dims_equal(dims[ch], d) is not True:
                if dims_equal(dims[ch], d) is False:
                    raise ValueError("einsum dims")
                raise Unsupported("einsum dims")
            dims[ch] = d
    summed = [ch for ch in dims if ch not in out]
    if builtin_any(not is_num(dims[ch]) for ch in summed):
        raise Unsupported("einsum over a symbolic dimension")
    rds = [o.snap() for o in ops]

    def el(*i):
        env = dict(zip(out, i))
        r = None
        for ks in itertools.product(*[builtin_range(dims[ch]) for ch in summed]):
            env.update(zip(summed, ks))
            t = None
            for s, rd in zip(ins, rds):
                v = rd(*[env[ch] for ch in s])
                t = v if t is None else t * v
            r = t if r is None else r + t
        return r
    return scalarise(SymArray(tuple(dims[ch] for ch in out), el, join_kinds(o.kind for o in ops)))


# ------------------------------------------------------------------ joining
def concatenate(seq, axis=0, **kw):
    if isinstance(seq, SymArray):
        seq = [seq[k] for k in builtin_range(len_concrete(seq))]
    if isinstance(seq, SymList):
        raise Unsupported("concatenate of a symbolic list")
    arrs = [asarray(x) for x in seq]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    ax = norm_axis(axis, arrs[0].ndim)
    if ax is None:
        arrs = [a.ravel() for a in arrs]
        ax = 0
    nd = arrs[0].ndim
    for a in arrs:
        if a.ndim != nd:
            raise ValueError("all the input array dimensions must match")
    sh = list(arrs[0].shape)
    for a in arrs[1:]:
        for k in builtin_range(nd):
            if k != ax:
                r = dims_equal(sh[k], a.shape[k])
                if r is False:
                    raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
                if r is None:
                    raise Unsupported("concatenate of unknown relative sizes")
    offs = [0]
    for a in arrs:
        offs.append(norm_dim(offs[-1] + a.shape[ax]))
    sh[ax] = offs[-1]
    rds = [a.snap() for a in arrs]
    kd = join_kinds([a.kind for a in arrs if not (is_num(a.size) and a.size == 0)] or [arrs[0].kind])

    def el(*i):
        p = i[ax]
        if is_num(p) and builtin_all(is_num(o) for o in offs):
            for k in builtin_range(builtin_len(arrs)):
                if offs[k] <= p < offs[k + 1]:
                    return cast_scalar(rds[k](*i[:ax], p - offs[k], *i[ax + 1:]), kd)
            return cast_scalar(rds[-1](*i[:ax], p - offs[-2], *i[ax + 1:]), kd)
        r = None
        for k in builtin_range(builtin_len(arrs) - 1, -1, -1):
            if is_num(arrs[k].shape[ax]) and arrs[k].shape[ax] == 0:
                continue
            q = norm_index(p - offs[k])
            v = cast_scalar(rds[k](*i[:ax], q, *i[ax + 1:]), kd)
            r = v if r is None else ite(S(ex(p) < ex(offs[k + 1])), v, r)
        return r if r is not None else 0.0
    if not is_num(offs[-1]):
        c = ctx()
        tot = offs[-1]
        for a, o in zip(arrs, offs):
            d = a.shape[ax]
            if is_num(d):
                if d <= 4:
                    for j in builtin_range(d):
                        c.note(tot, ex(o + j))
            elif dim_eq(d, tot) is not True:
                c.assume_all([d], lambda i, o=o: (c.note(tot, ex(i + o)), z3.BoolVal(True))[1], "part")
    return SymArray(sh, el, kd)


def len_concrete(a):
    n = a.shape[0]
    if not is_num(n):
        raise Unsupported("symbolic number of parts")
    return n


def seq_of(x):
    if isinstance(x, SymArray):
        return [x[k] for k in builtin_range(len_concrete(x))]
    return list(x)


def atleast_1d(a):
    a = asarray(a)
    return a.reshape(1) if a.ndim == 0 else a


def atleast_2d(a):
    a = asarray(a)
    if a.ndim == 0:
        return a.reshape(1, 1)
    if a.ndim == 1:
        return a[None, :]
    return a


def hstack(seq):
    seq = list(seq)
    if builtin_any(isinstance(s, Matrix) for s in seq):
        return Matrix(concatenate([s.a if isinstance(s, Matrix) else s for s in seq], axis=1))
    arrs = [atleast_1d(x) for x in seq_of(seq)]
    return concatenate(arrs, axis=0 if arrs[0].ndim == 1 else 1)


def vstack(seq):
    return concatenate([atleast_2d(x) for x in seq_of(seq)], axis=0)


def column_stack(seq):
    arrs = []
    for x in seq_of(seq):
        a = asarray(x)
        arrs.append(a[:, None] if a.ndim == 1 else a)
    return concatenate(arrs, axis=1)


def stack(seq, axis=0):
    arrs = [asarray(x) for x in seq_of(seq)]
    nd = arrs[0].ndim + 1
    ax = norm_axis(axis, nd)
    key = [slice(None)] * ax + [None]
    return concatenate([a[tuple(key)] for a in arrs], axis=ax)


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        r = concatenate([a.ravel(), v.ravel()])
        if a.ndim == 1 and v.ndim <= 1 and r.kind == a.kind:
            r.appended = (a, v.ravel())
        return r
    return concatenate([a, v], axis=axis)


def insert(a, pos, v, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        pos = norm_index(pos)
        if is_num(pos):
            v = asarray(v).ravel()
            if a.kind == "i" and v.kind == "f":
                v = v.astype("i")
            return concatenate([a[:pos], v, a[pos:]])
    raise Unsupported("insert")


def tile(a, reps):
    a = asarray(a)
    reps = (reps,) if not isinstance(reps, (tuple, list)) else tuple(reps)
    nd = builtin_max(a.ndim, builtin_len(reps))
    sh = (1,) * (nd - a.ndim) + a.shape
    reps = (1,) * (nd - builtin_len(reps)) + reps
    rd = a.snap()
    out = [norm_dim(d * r) for d, r in zip(sh, reps)]
    off = nd - a.ndim

    def el(*i):
        j = []
        for k in builtin_range(off, nd):
            if is_num(reps[k]) and reps[k] == 1:
                j.append(i[k])
            elif is_num(sh[k]) and sh[k] == 1:
                j.append(0)
            else:
                j.append(pymod(i[k], sh[k]))
        return rd(*j)
    return SymArray(out, el, a.kind)


def repeat(a, n, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    ax = norm_axis(axis, a.ndim)
    rd = a.snap()
    sh = list(a.shape)
    one = is_num(sh[ax]) and sh[ax] == 1
    sh[ax] = norm_dim(sh[ax] * n)

    def el(*i):
        q = 0 if one else floordiv(i[ax], n)
        return rd(*i[:ax], q, *i[ax + 1:])
    return SymArray(sh, el, a.kind)


def flipud(a):
    return asarray(a)[::-1]


def fliplr(a):
    return asarray(a)[:, ::-1]


def flip(a, axis=None):
    a = asarray(a)
    key = [slice(None)] * a.ndim
    for ax in ([norm_axis(axis, a.ndim)] if axis is not None else range_dims(a.ndim)):
        key[ax] = slice(None, None, -1)
    return a[tuple(key)]


def transpose(a, axes=None):
    a = asarray(a)
    return a.transpose(*axes) if axes is not None else a.transpose()


def reshape(a, shape, order="C"):
    return asarray(a).reshape(*(shape if isinstance(shape, (tuple, list)) else (shape,)), order=order)


def ravel(a, order="C"):
    return asarray(a).ravel(order)


def swapaxes(a, i, j):
    ax = list(range_dims(asarray(a).ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return asarray(a).transpose(*ax)


def expand_dims(a, axis):
    a = asarray(a)
    ax = norm_axis(axis, a.ndim + 1)
    return a[tuple([slice(None)] * ax + [None])]


def squeeze(a, axis=None):
    return asarray(a).squeeze()


def diff(a):
    a = asarray(a)
    return a[1:] - a[:-1]


def require(a, dtype=None, requirements=None):
    return asarray(a)


ascontiguousarray = require


def copy(a):
    return asarray(a).copy()


def meshgrid(*xs, indexing="xy", **kw):
    arrs = [asarray(x) for x in xs]
    n = builtin_len(arrs)
    order = list(builtin_range(n))
    if indexing == "xy" and n > 1:
        order[0], order[1] = 1, 0
    sh = [arrs[o].shape[0] for o in order]
    res = []
    for k, a in builtin_enumerate(arrs):
        rd = a.snap()
        pos = order.index(k)
        res.append(SymArray(sh, lambda *i, rd=rd, pos=pos: rd(i[pos]), a.kind))
    return res


class _MGrid:
    def __getitem__(self, key):
        single = not isinstance(key, tuple)
        ks = (key,) if single else key
        vecs = [arange_f(k.start, k.stop, k.step) if k.step is not None else arange(k.start, k.stop) for k in ks]
        sh = [v.shape[0] for v in vecs]
        rds = [v.snap() for v in vecs]
        if single:
            return vecs[0]
        return SymArray([builtin_len(vecs)] + sh,
                        lambda d, *i: select([lambda k=k: rds[k](i[k]) for k in builtin_range(builtin_len(rds))], d), "f")


mgrid = _MGrid()


# ------------------------------------------------------------------ selection
def filter_index(n, maskfn, name="flt"):
    """indices i in [0,n) with maskfn(i), increasing.  -> (m, src, dst)"""
    c = ctx()
    m = c.fresh(name + "_m", I)
    srcf = c.fresh_fn(name + "_src", I, I)
    dstf = c.fresh_fn(name + "_dst", I, I)
    c.fact(z3.And(m >= 0, m <= ex(n)))
    made = set()

    def src(k):
        e = srcf(ex(k))
        if c.once((name, e)):
            rng = z3.And(ex(k) >= 0, ex(k) < m)
            made.add(z3.simplify(e).get_id())
            c.hold(z3.simplify(e))
            c.fact(z3.Implies(rng, z3.And(e >= 0, e < ex(n), dstf(e) == ex(k))))
            c.note(n, e)
            c.note(S(m), ex(k))
            c.fact(z3.Implies(rng, boolx(maskfn(S(e)))))
        return S(e)

    c.assume_all([S(m), S(m)], lambda a, b: z3.Implies(ex(a) < ex(b), ex(src(a)) < ex(src(b))), name + "-increasing",
                 skip=lambda a, b: a.get_id() == b.get_id())

    def complete(i):
        d = dstf(ex(i))
        g = boolx(maskfn(i))
        if z3.is_false(z3.simplify(g)):
            return z3.BoolVal(True)
        c.note(S(m), d)
        return z3.Implies(g, z3.And(d >= 0, d < m, srcf(d) == ex(i)))
    c.assume_all([n], complete, name + "-complete", skip=lambda i: i.get_id() in made)
    return S(m), src, (lambda i: S(dstf(ex(i))))


def mask_filter(mask):
    """the selected indices of a boolean array; the same array (unmodified) selects the same indices"""
    old = mask.__dict__.get("_flt") if hasattr(mask, "__dict__") else None
    if old is not None and old[0] == mask.buf.version:
        return old[1]
    r = filter_index(mask.shape[0], mask.snap())
    c = ctx()
    c.__dict__.setdefault("filters", []).append((mask.shape[0], mask.snap(), r))
    try:
        mask._flt = (mask.buf.version, r)
    except AttributeError:
        pass
    return r


def mask_select(a, mask):
    """a[mask] along leading axes"""
    if mask.ndim == 1:
        n = a.shape[0]
        r = dims_equal(mask.shape[0], n)
        if r is False:
            raise IndexError("boolean index did not match indexed array")
        if r is None:
            raise Unsupported("boolean mask of unknown relative length")
        rm, ra = mask.snap(), a.snap()
        if is_num(n) and n <= 1:
            pass
        if is_num(n):
            # concrete length: fork per element
            keep = [k for k in builtin_range(n) if bool(rm(k) if isinstance(rm(k), S) else rm(k))]
            return SymArray((builtin_len(keep),) + a.shape[1:],
                            lambda k, *r: ra(select([lambda q=q: q for q in keep], k) if keep else 0, *r), a.kind)
        m, src, dst = mask_filter(mask)
        res = SymArray((m,) + a.shape[1:], lambda k, *r: ra(src(k), *r), a.kind)
        res.tag = ("filter", src, dst)
        return res
    if mask.ndim == a.ndim:
        return mask_select(a.ravel(), mask.ravel())
    raise Unsupported("boolean mask of higher dimension")


def where(cond, *xy):
    if builtin_len(xy) == 2:
        return elementwise(lambda c, a, b: ite(S(boolx(c)) if not isinstance(c, bool) else c, a, b), (cond, xy[0], xy[1]),
                           kind=join_kinds([asarray(xy[0]).kind, asarray(xy[1]).kind]))
    a = asarray(cond)
    if a.ndim == 1:
        n = a.shape[0]
        return (mask_select(arange(n), a if a.kind == "b" else a.astype(bool)),)
    if a.ndim >= 2:
        if builtin_all(not is_num(d) for d in a.shape):
            return where_nd(a)
        # lexicographic enumeration through the flattened index
        flat = a.ravel()
        w = mask_select(arange(flat.shape[0]), flat.astype(bool))
        rd = w.snap()
        m = reindex([flat.shape[0]], list(a.shape))
        return tuple(SymArray(w.shape, lambda k, d=d: m(rd(k))[d], "i") for d in builtin_range(a.ndim))
    raise Unsupported("where of a scalar")


def where_nd(a):
    """index tuples of the true entries of a symbolic n-d array, in lexicographic order"""
    c = ctx()
    rm, sh, nd = a.snap(), list(a.shape), a.ndim
    m = c.fresh("wh_m", I)
    srcf = [c.fresh_fn(f"wh_src{d}", I, I) for d in builtin_range(nd)]
    dstf = c.fresh_fn("wh_dst", *([I] * nd), I)
    c.fact(m >= 0)

    def true(*i):
        return boolx(rm(*[S(ex(x)) for x in i]))

    def src(k):
        es = [f(ex(k)) for f in srcf]
        if c.once(("where", es[0])):
            rng = z3.And(ex(k) >= 0, ex(k) < m)
            c.fact(z3.Implies(rng, z3.And(dstf(*es) == ex(k), *[z3.And(e >= 0, e < ex(n)) for e, n in zip(es, sh)])))
            for n, e in zip(sh, es):
                c.note(n, e)
            c.note(S(m), ex(k))
            c.fact(z3.Implies(rng, true(*es)))
        return es

    def before(x, y):
        return z3.Or(*[z3.And(*[x[q] == y[q] for q in builtin_range(d)], x[d] < y[d]) for d in builtin_range(nd)])
    c.assume_all([S(m), S(m)], lambda p, q: z3.Implies(ex(p) < ex(q), before(src(p), src(q))), "where-increasing",
                 skip=lambda p, q: p.get_id() == q.get_id())

    def complete(*i):
        g = true(*i)
        if z3.is_false(z3.simplify(g)):
            return z3.BoolVal(True)
        ii = [ex(x) for x in i]
        d = dstf(*ii)
        c.note(S(m), d)
        return z3.Implies(g, z3.And(d >= 0, d < m, *[f(d) == x for f, x in zip(srcf, ii)]))
    c.assume_all(sh, complete, "where-complete")
    src(z3.IntVal(0))
    out = []
    for d in builtin_range(nd):
        t = SymArray((S(m),), lambda k, d=d: S(src(k)[d]), "i")
        t.tag = ("where", (srcf, true, sh), d)
        out.append(t)
    return tuple(out)


def nonzero(a):
    return where(a)


def flatnonzero(a):
    return where(asarray(a).ravel())[0]


def argwhere(a):
    t = where(a)
    return column_stack(t)


def in1d(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    mem = member(b)
    rd = a.snap()
    return SymArray(a.shape, lambda i: S(mem(rd(i))[0]), "b")


isin = in1d


def member(arr):
    """membership in an int array: returns i -> (Bool, witness index)"""
    c = ctx()
    n = arr.shape[0]
    rd = arr.snap()
    if is_num(n):
        vals = [rd(k) for k in builtin_range(n)]

        def f(i):
            if not vals:
                return z3.BoolVal(False), S(z3.IntVal(0))
            cs = [ex(S(num(v)) == i) for v in vals]
            w = 0
            for k in builtin_range(n):
                w = ite(S(cs[k]), k, w)       # last match wins
            return z3.simplify(z3.Or(*cs)), w
        return f
    mf = c.fresh_fn("mem", I, B)
    wf = c.fresh_fn("memw", I, I)
    if arr.kind != "i":
        raise Unsupported("membership of non-integers")
    # where the entries are consecutive, the position of i in them is known
    with c.trial():
        base = z3.simplify(num(rd(S(z3.IntVal(0)))))
        probe = c.fresh("at", I)
        consecutive = z3.is_true(z3.simplify(num(rd(S(probe))) == base + probe))

    def f(i):
        b = mf(ex(i))
        if c.once(("mem", b)):
            w = wf(ex(i))
            c.note(n, w)
            if consecutive:
                c.note(n, z3.simplify(ex(i) - base))
            c.fact(z3.Implies(b, z3.And(w >= 0, w < ex(n), num(rd(S(w))) == ex(i))))
        return b, S(wf(ex(i)))
    c.assume_all([n], lambda k: mf(num(rd(k))), "member-complete")
    return f


def delete(a, ix, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    if axis != 0:
        raise Unsupported("delete along another axis")
    n = a.shape[0]
    if isinstance(ix, slice):
        ix = arange(n)[ix]
    if not is_arr(ix):
        ix = asarray([ix])
    ix = asarray(ix).ravel()
    if is_num(ix.shape[0]) and ix.shape[0] == 0:
        return a.copy()
    if ix.kind == "b":
        return mask_select(a, elementwise(op_not, (ix,), "b"))
    rdx = ix.snap()
    # negative indices count from the end
    nx = SymArray(ix.shape, lambda k: wrap_neg(rdx(k), n), "i")
    if not is_num(ix.shape[0]):
        k = ctx().fresh("ix", I)
        with ctx().trial():
            plain = ctx().implied(z3.Implies(z3.And(k >= 0, k < ex(ix.shape[0])), num(rdx(S(k))) >= 0), timeout=500)
        if plain:
            nx = SymArray(ix.shape, rdx, "i")
    mem = member(nx)
    mask = SymArray((n,), lambda i: S(z3.Not(mem(i)[0])), "b")
    return mask_select(a, mask)


def wrap_neg(i, n):
    if is_num(i):
        return i if i >= 0 else norm_index(n + i)
    e = num(i)
    if ctx().implied(e >= 0, timeout=500):
        return i
    return S(z3.If(e < 0, e + ex(n), e))


# ------------------------------------------------------------------ getitem / setitem
def expand_key(a, key):
    key = key if isinstance(key, tuple) else (key,)
    nd = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if isinstance(k, SymArray) and k.kind == "b":
            nd += k.ndim
        else:
            nd += 1
    if builtin_any(k is Ellipsis for k in key):
        p = [k is Ellipsis for k in key].index(True)
        key = key[:p] + (slice(None),) * (a.ndim - nd) + key[p + 1:]
    else:
        key = key + (slice(None),) * (a.ndim - nd)
    if nd > a.ndim:
        raise IndexError("too many indices for array")
    return key


def slice_bounds(lo, hi, n):
    def fixb(v, default):
        if v is None:
            return default
        v = norm_index(v)
        if is_num(v) and is_num(n):
            if v < 0:
                v += n
            return builtin_max(0, builtin_min(v, n))
        c = ctx()
        e = ex(v)
        if is_num(v) and v < 0:
            e = ex(n) + v
        elif not is_num(v) and not c.implied(e >= 0):
            e = z3.If(e < 0, ex(n) + e, e)
        if c.implied(z3.And(e >= 0, e <= ex(n))):
            return norm_index(S(e))
        return norm_index(S(z3.If(e < 0, 0, z3.If(e > ex(n), ex(n), e))))
    lo = fixb(lo, 0)
    hi = fixb(hi, n)
    if is_num(lo) and is_num(hi):
        return lo, builtin_max(lo, hi)
    c = ctx()
    if c.implied(ex(lo) <= ex(hi)):
        return lo, hi
    return lo, norm_index(S(z3.If(ex(hi) < ex(lo), ex(lo), ex(hi))))


def getitem(a, key):
    if isinstance(key, (SymList,)):
        key = asarray(key)
    if isinstance(key, list):
        key = asarray(key) if key else zeros(0, int)
    if isinstance(key, SymArray) and key.kind == "b" and key.ndim > 0:
        return mask_select(a, key)
    key = expand_key(a, key)
    # basic part first
    key2 = []
    adv = []
    for k in key:
        if isinstance(k, (list, SymList)):
            k = asarray(k) if not (isinstance(k, list) and not k) else zeros(0, int)
        if isinstance(k, Matrix):
            k = k.a
        if isinstance(k, SymArray) and k.ndim == 0:
            k = k.item()
        if isinstance(k, SymArray) and k.kind == "b":
            if k.ndim != 1:
                raise Unsupported("mixed boolean index")
            k = where(k)[0]
        key2.append(k)
    basic = [slice(None) if isinstance(k, SymArray) else k for k in key2]
    v = basic_index(a, basic)
    if not builtin_any(isinstance(k, SymArray) for k in key2):
        return scalarise(v)
    # positions of advanced indices in the view's axes
    pos, arrs, ax = [], [], 0
    for k in key2:
        if k is None:
            ax += 1
        elif isinstance(k, SymArray):
            pos.append(ax)
            arrs.append(k)
            ax += 1
        elif isinstance(k, slice):
            ax += 1
    # integers mixed with advanced indices are advanced too in numpy; handled for the usual layouts
    if builtin_any(not isinstance(k, (slice, SymArray)) and k is not None for k in key2):
        if not (builtin_len(pos) == 1):
            raise Unsupported("mixed integer and array index")
        first_int = [j for j, k in builtin_enumerate(key2) if not isinstance(k, (slice, SymArray)) and k is not None]
        arr_j = [j for j, k in builtin_enumerate(key2) if isinstance(k, SymArray)][0]
        between = key2[builtin_min(first_int[0], arr_j) + 1:builtin_max(first_int[-1], arr_j)]
        if builtin_any(isinstance(k, slice) for k in between):
            raise Unsupported("mixed integer and array index")
    return fancy_get(v, pos, arrs)


def fancy_get(v, pos, arrs):
    bs = bshape([x.shape for x in arrs])
    rds = [bread(x, bs) for x in arrs]
    contiguous = builtin_all(pos[k + 1] == pos[k] + 1 for k in builtin_range(builtin_len(pos) - 1))
    rest = [d for d in builtin_range(v.ndim) if d not in pos]
    nb = builtin_len(bs)
    if contiguous:
        lead = pos[0]
    else:
        lead = 0
    sh = tuple(v.shape[d] for d in rest[:lead]) + bs + tuple(v.shape[d] for d in rest[lead:])
    rv = v.snap()
    dims = [v.shape[p] for p in pos]

    def el(*i):
        r = list(i[:lead]) + list(i[lead + nb:])
        b = i[lead:lead + nb]
        fullix = [None] * v.ndim
        for d, x in zip(rest, r):
            fullix[d] = x
        for p, rd, dm in zip(pos, rds, dims):
            ix = rd(*b)
            if not is_num(ix) and ix.kind == "b":
                ix = S(num(ix))
            if is_num(ix) and ix < 0:
                ix = norm_index(dm + ix)
            fullix[p] = ix
        return rv(*fullix)
    # index validity is an obligation of the caller only where the contract layer asks for it
    c = ctx()
    hooks = getattr(c, "index_hook", None)
    if hooks:
        hooks(v, pos, arrs)
    return scalarise(SymArray(sh, el, v.kind))


def basic_index(a, key):
    shape, plan = [], []
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            plan.append(("new",))
        elif isinstance(k, slice):
            n = a.shape[ax]
            st = 1 if k.step is None else norm_index(k.step)
            if not is_num(st):
                raise Unsupported("symbolic slice step")
            if st == 1:
                lo, hi = slice_bounds(k.start, k.stop, n)
                shape.append(norm_dim(hi - lo))
                plan.append(("sl", ax, lo, 1, hi))
            elif is_num(n):
                r = builtin_range(n)[slice(None if k.start is None else int(norm_index(k.start)),
                                           None if k.stop is None else int(norm_index(k.stop)), st)]
                shape.append(builtin_len(r))
                plan.append(("sl", ax, r.start, st, None))
            elif st == -1 and k.start is None and k.stop is None:
                shape.append(n)
                plan.append(("rev", ax, n))
            elif st > 0 and k.stop is None and (k.start is None or is_num(k.start)):
                lo = 0 if k.start is None else k.start
                if lo < 0:
                    raise Unsupported("slice")
                shape.append(norm_dim(S(z3.simplify((ex(n) - lo + st - 1) / st))) if True else 0)
                plan.append(("sl", ax, lo, st, None))
            else:
                raise Unsupported("slice")
            ax += 1
        else:
            k = norm_index(k)
            n = a.shape[ax]
            if is_num(k) and k < 0:
                k = norm_index(n + k)
            elif not is_num(k) and not ctx().unchecked and not ctx().entails(z3.And(ex(k) >= 0, ex(k) < ex(n))):
                if not ctx().implied(ex(k) >= 0, timeout=800):
                    if not ctx().decide(z3.simplify(ex(k) >= 0)):
                        k = norm_index(S(ex(k) + ex(n)))
            bounds_check(k, n)
            plan.append(("int", ax, k))
            ax += 1
    nd = a.ndim

    def m(*i):
        out = [None] * nd
        p = 0
        for st in plan:
            if st[0] == "new":
                p += 1
            elif st[0] == "int":
                out[st[1]] = st[2]
            elif st[0] == "rev":
                out[st[1]] = norm_index(st[2] - 1 - i[p])
                p += 1
            else:
                _, x, lo, s, _h = st
                v = i[p]
                if s != 1:
                    v = v * s
                out[x] = norm_index(v + lo) if not (is_num(lo) and lo == 0) else v
                p += 1
        return tuple(out)

    def inv(*b):
        cond = True
        out = []
        for st in plan:
            if st[0] == "new":
                out.append(0)
            elif st[0] == "int":
                cond = cand(cond, eqc(b[st[1]], st[2]))
            elif st[0] == "rev":
                out.append(norm_index(st[2] - 1 - b[st[1]]))
            else:
                _, x, lo, s, hi = st
                v = b[x]
                if s == 1:
                    n = a.shape[x]
                    if not (is_num(lo) and lo == 0):
                        cond = cand(cond, gec(v, lo))
                    if dim_eq(hi, n) is not True:
                        cond = cand(cond, ltc(v, hi))
                    out.append(norm_index(v - lo))
                elif is_num(v):
                    q, r = divmod(v - lo, s)
                    if r or q < 0:
                        cond = False
                    out.append(q)
                else:
                    if s < 0:
                        raise Unsupported("write through a stepped slice")
                    cond = cand(cond, S(z3.And(ex(v) >= lo, (ex(v) - lo) % s == 0)))
                    out.append(S(z3.simplify((ex(v) - lo) / s)))
        return cond, tuple(out)
    return a.view_of(shape, m, inv)


def eqc(a, b):
    if is_num(a) and is_num(b):
        return a == b
    return S(ex(a) == ex(b))


def gec(a, b):
    if is_num(a) and is_num(b):
        return a >= b
    return S(ex(a) >= ex(b))


def ltc(a, b):
    if is_num(a) and is_num(b):
        return a < b
    return S(ex(a) < ex(b))


def record_write(a):
    c = ctx()
    c.writes.append(a.buf)
    a.tag = None
    root = a.base if a.base is not None else a
    if a.ro or root.ro:
        raise ValueError("assignment destination is read-only")


def setitem(a, key, val):
    record_write(a)
    if isinstance(val, Matrix):
        val = val.a
    if isinstance(key, list):
        key = asarray(key) if key else zeros(0, int)
    if isinstance(key, SymList):
        key = asarray(key)
    if isinstance(key, Matrix):
        key = key.a
    if isinstance(key, tuple) and builtin_any(isinstance(k, (SymArray, list)) for k in key):
        arrs = [k if not isinstance(k, list) else asarray(k) for k in key]
        # mask / index array on the first axis with basic rest
        if isinstance(arrs[0], SymArray) and builtin_all(not isinstance(k, SymArray) for k in arrs[1:]):
            first = arrs[0]
            sub = basic_index(a, [slice(None)] + list(expand_key(a, (slice(None),) + tuple(arrs[1:]))[1:]))
            if first.kind == "b":
                return set_mask(sub, first, val)
            return set_fancy(sub, first, val)
        if builtin_len(arrs) == a.ndim and builtin_all(isinstance(k, SymArray) for k in arrs):
            return set_tuple(a, arrs, val)
        raise Unsupported("mixed assignment index")
    if isinstance(key, SymArray) and key.ndim > 0:
        if key.kind == "b":
            return set_mask(a, key, val)
        return set_fancy(a, key, val)
    view = basic_index(a, list(expand_key(a, key)))
    write_view(view, lambda *i: True, val)


def value_reader(val, shape, kind):
    v = asarray(val)
    # broadcast val to shape
    bs = v.shape
    if builtin_len(bs) > builtin_len(shape):
        while builtin_len(bs) > builtin_len(shape) and is_num(bs[0]) and bs[0] == 1:
            v = v[0]
            if not isinstance(v, SymArray):
                v = asarray(v)
            bs = v.shape
    for a, b in zip(v.shape[::-1], shape[::-1]):
        if is_num(a) and a == 1:
            continue
        r = dims_equal(a, b)
        if r is False:
            raise ValueError("could not broadcast input array")
        if r is None:
            if not ctx().decide(z3.simplify(ex(a) == ex(b))):
                raise ValueError("could not broadcast input array")
    rd = bread(v, shape) if v.ndim <= builtin_len(shape) else None
    if rd is None:
        raise ValueError("could not broadcast input array")
    return lambda *i: cast_scalar(rd(*i), kind)


def write_view(view, condfn, val):
    rd = value_reader(val, view.shape, view.kind)
    buf = view.buf
    old, vinv = buf.fn, view.vinv

    def fn(*b):
        if vinv:
            c, i = vinv(*b)
        else:
            c, i = True, b
        if c is False:
            return old(*b)
        c = cand(c, condfn(*i))
        if c is True:
            return rd(*i)
        return ite(c, rd(*i), old(*b))
    buf.update(memo_fn(fn))


def memo_fn(fn):
    memo = {}

    def g(*b):
        key = tuple(i if is_num(i) else ex(i).get_id() for i in b)
        if key not in memo:
            memo[key] = fn(*b)
            for i in b:
                if not is_num(i):
                    ctx().hold(ex(i))
        return memo[key]
    return g


def set_mask(a, mask, val):
    if mask.ndim == a.ndim and a.ndim > 1 or (mask.ndim == 1 and a.ndim == 1):
        for x, y in zip(mask.shape, a.shape):
            if dims_equal(x, y) is not True:
                if dims_equal(x, y) is False:
                    raise IndexError("boolean index did not match")
                raise Unsupported("mask length")
        rm = mask.snap()
        v = asarray(val)
        if v.ndim == 0:
            return write_view(a, lambda *i: S(boolx(rm(*i))), val)
        if a.ndim == 1:
            return set_mask_rows(a, mask, v)
        raise Unsupported("mask assignment")
    if mask.ndim == 1:
        v = asarray(val)
        rm = mask.snap()
        if v.ndim == 0 or (v.ndim < a.ndim):
            return write_view(a, lambda *i: S(boolx(rm(i[0]))), val)
        return set_mask_rows(a, mask, v)
    raise Unsupported("mask assignment")


def set_mask_rows(a, mask, v):
    """a[mask] = v with one row of v per selected row"""
    rm = mask.snap()
    tag = v.tag
    n = a.shape[0]
    if is_num(n):
        keep = [k for k in builtin_range(n) if bool(rm(k))]
        rd = value_reader(v, (builtin_len(keep),) + a.shape[1:], a.kind)
        rank = {k: r for r, k in builtin_enumerate(keep)}
        for k in keep:
            write_view(a, lambda *i, k=k: eqc(i[0], k), SymArray(a.shape[1:], lambda *r, k=k: rd(rank[k], *r), a.kind))
        return
    one = is_num(v.shape[0]) and v.shape[0] == 1
    same = None if one else same_filter(n, rm, v.shape[0])
    m, src, dst = same or mask_filter(mask)
    if not one and not same and dims_equal(m, v.shape[0]) is not True:
        raise Unsupported("mask assignment with an unrelated number of rows")
    rd = bread(SymArray(v.shape, v.snap(), v.kind), (v.shape[0],) + a.shape[1:])
    buf = a.buf
    old, vinv = buf.fn, a.vinv

    def fn(*b):
        if vinv:
            c, i = vinv(*b)
        else:
            c, i = True, b
        if c is False:
            return old(*b)
        c = cand(c, S(boolx(rm(i[0]))))
        return ite(c, cast_scalar(rd(dst(i[0]), *i[1:]), a.kind), old(*b))
    buf.update(memo_fn(fn))


def same_filter(n, rm, count):
    """an earlier selection of `count` entries of the same range by a mask that is provably the same"""
    c = ctx()
    for n0, r0, res in c.__dict__.get("filters", []):
        if dim_eq(res[0], count) is True and dims_equal(n0, n) is True:
            with c.trial():
                k = c.fresh("samemask", I)
                c.fact(z3.And(k >= 0, k < ex(n)))
                if c.implied(boolx(r0(S(k))) == boolx(rm(S(k)))):
                    return res
    return None


def set_fancy(a, ix, val):
    if ix.ndim != 1:
        v = asarray(val)
        if v.ndim == 0:
            ix = ix.ravel()
        elif v.ndim >= ix.ndim and ix.ndim == 2 and is_num(ix.shape[1]) and ix.shape[1] == 1:
            # (k,1) index with (k,1,...) values
            ix = ix.ravel()
            val = v.reshape(*([v.shape[0]] + list(v.shape[2:]))) if v.ndim > 1 and is_num(v.shape[1]) and v.shape[1] == 1 else val
        else:
            raise Unsupported("fancy assignment with a nd index")
    n = a.shape[0]
    rdx = ix.snap()
    if ix.kind == "f":
        if is_num(ix.shape[0]) and ix.shape[0] == 0:
            return
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    nx = SymArray(ix.shape, lambda k: wrap_neg(rdx(k), n), "i")
    mem = member(nx)
    rd = value_reader(val, (ix.shape[0],) + a.shape[1:], a.kind)
    buf = a.buf
    old, vinv = buf.fn, a.vinv

    def fn(*b):
        if vinv:
            c, i = vinv(*b)
        else:
            c, i = True, b
        if c is False:
            return old(*b)
        mb, w = mem(i[0])
        c = cand(c, S(mb))
        return ite(c, rd(w, *i[1:]), old(*b))
    buf.update(memo_fn(fn))


def set_tuple(a, arrs, val):
    """a[ix0, ix1, ...] = scalar"""
    v = asarray(val)
    tags = [x.tag for x in arrs]
    if v.ndim == 0 and builtin_all(t and t[0] == "where" and t[1] is tags[0][1] and t[2] == d
                                   for d, t in builtin_enumerate(tags)) \
            and builtin_len(tags) == a.ndim == builtin_len(tags[0][1][2]) \
            and builtin_all(dims_equal(x, y) is True for x, y in zip(tags[0][1][2], a.shape)):
        true = tags[0][1][1]
        return write_view(a, lambda *i: S(true(*i)), val)
    bs = bshape([x.shape for x in arrs])
    if builtin_len(bs) != 1:
        raise Unsupported("tuple assignment")
    n = bs[0]
    c = ctx()
    rds = [bread(x, bs) for x in arrs]
    k = builtin_len(arrs)
    mf = c.fresh_fn("mem", *([I] * k), B)
    wf = c.fresh_fn("memw", *([I] * k), I)

    def mem(i):
        ii = [ex(x) for x in i]
        b = mf(*ii)
        if c.once(("mem", b)):
            w = wf(*ii)
            c.note(n, w)
            c.fact(z3.Implies(b, z3.And(w >= 0, w < ex(n), *[num(r(S(w))) == x for r, x in zip(rds, ii)])))
        return b, S(wf(*ii))
    c.assume_all([n], lambda j: mf(*[num(r(j)) for r in rds]), "member-complete")
    rd = value_reader(val, bs, a.kind)
    buf = a.buf
    old, vinv = buf.fn, a.vinv

    def fn(*b):
        cc, i = vinv(*b) if vinv else (True, b)
        if cc is False:
            return old(*b)
        mb, w = mem(i)
        return ite(cand(cc, S(mb)), rd(w), old(*b))
    buf.update(memo_fn(fn))


# ------------------------------------------------------------------ sorting / unique
class RowView:
    """rows of a 2-d array viewed as opaque byte strings"""

    def __init__(self, a):
        self.a = a
        self.kind = "V"

    def view(self, t):
        return self.a

    def ravel(self, order=None):
        return self


def check_void(t, a):
    if t.void_cols is not None:
        if dims_equal(t.void_cols, a.shape[1]) is not True:
            raise Unsupported("void view that does not span whole rows")


def dtype(t, *a):
    if isinstance(t, tuple):
        base, size = t
        d = DType("V")
        # size = itemsize * ncols
        d.void_cols = norm_dim(floordiv(size, 8)) if True else None
        return d
    if isinstance(t, DType):
        return t
    d = DType(kind_of(t))
    if isinstance(t, str):
        d.name = t
    return d


character = "character"
void = "void"


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None):
    rows = False
    if isinstance(x, RowView):
        a, rows = x.a, True
    else:
        a = asarray(x)
        if axis is not None:
            if norm_axis(axis, a.ndim) != 0 or a.ndim != 2:
                raise Unsupported("unique along an axis")
            rows = True
        elif a.ndim != 1:
            a = a.ravel()
    N = a.shape[0]
    rd = a.snap()
    ncol = a.shape[1] if rows else None
    if rows and not is_num(ncol):
        raise Unsupported("unique rows of symbolic width")
    c = ctx()
    M = c.fresh("uniq_m", I)
    first = c.fresh_fn("uniq_first", I, I)
    inv = c.fresh_fn("uniq_inv", I, I)
    cnt = c.fresh_fn("uniq_cnt", I, I)
    nth = c.fresh_fn("uniq_nth", I, I, I)
    rank = c.fresh_fn("uniq_rank", I, I)
    c.fact(z3.And(M >= 0, M <= ex(N), z3.Implies(ex(N) > 0, M > 0)))
    madeF, madeN = set(), set()

    def row(i):
        if rows:
            return [num(rd(i, k)) for k in builtin_range(ncol)]
        return [num(rd(i))]

    def eqrow(p, q):
        return z3.And(*[x == y for x, y in zip(p, q)])

    def FI(k):
        e = first(ex(k))
        if c.once(("uf", e)):
            g = z3.And(ex(k) >= 0, ex(k) < M)
            se = z3.simplify(e)
            madeF.add(se.get_id())
            c.hold(se)
            c.note(N, e)
            c.note(S(M), ex(k))
            c.fact(z3.Implies(g, z3.And(e >= 0, e < ex(N), inv(e) == ex(k), cnt(ex(k)) >= 1,
                                        nth(ex(k), z3.IntVal(0)) == e, rank(e) == 0)))
            # a count of at least two has a second occurrence, etc.
            for q in (1, 2):
                t = nth(ex(k), z3.IntVal(q))
                st = z3.simplify(t)
                madeF.add(st.get_id())
                madeN.add(st.get_id())
                c.hold(st)
                if q == 1:
                    c.note(N, st)
                c.fact(z3.Implies(z3.And(g, cnt(ex(k)) > q),
                                  z3.And(t >= 0, t < ex(N), inv(t) == ex(k), rank(t) == q,
                                         t > nth(ex(k), z3.IntVal(q - 1)), eqrow(row(S(t)), row(S(e))))))
        return S(e)

    def J(i):
        e = inv(ex(i))
        if z3.simplify(ex(i)).get_id() in madeF:
            return S(e)
        if c.once(("ui", e)):
            g = z3.And(ex(i) >= 0, ex(i) < ex(N))
            c.note(N, ex(i))
            c.note(S(M), e)
            c.fact(z3.Implies(g, z3.And(e >= 0, e < M, rank(ex(i)) >= 0, rank(ex(i)) < cnt(e),
                                        nth(e, rank(ex(i))) == ex(i), first(e) <= ex(i))))
            f = FI(S(e))
            c.fact(z3.Implies(g, eqrow(row(i), row(f))))
        return S(e)
    # distinct: equal rows have the same position
    c.assume_all([N, N], lambda i, j: z3.Implies(eqrow(row(i), row(j)), ex(J(i)) == ex(J(j))), "unique-distinct",
                 skip=lambda i, j: i.get_id() >= j.get_id() or i.get_id() in madeN or j.get_id() in madeN)
    c.assume_all([N], lambda i: z3.BoolVal(True) if J(i) is None else z3.BoolVal(True), "unique-inverse")
    if rows:
        U = SymArray((S(M), ncol), lambda k, j: rd(FI(k), j), a.kind)
        # distinct rows of U follow from: equal rows -> same inverse; inverse(first(k)) = k
    else:
        U = SymArray((S(M),), lambda k: rd(FI(k)), a.kind)
        c.assume_all([S(M), S(M)], lambda p, q: z3.Implies(ex(p) < ex(q), row(FI(p))[0] < row(FI(q))[0]), "unique-sorted",
                     skip=lambda i, j: i.get_id() == j.get_id())
    U.tag = ("unique", FI, J, S(M))
    out = [U if not (rows and isinstance(x, RowView)) else UView(U)]
    if return_index:
        out.append(SymArray((S(M),), FI, "i"))
    if return_inverse:
        out.append(SymArray((N,), J, "i"))
    if return_counts:
        def C(k):
            FI(k)
            return S(cnt(ex(k)))
        out.append(SymArray((S(M),), C, "i"))
    return out[0] if builtin_len(out) == 1 else tuple(out)


class UView:
    """unique rows still viewed as void"""

    def __init__(self, a):
        self.a = a

    def view(self, t):
        return self.a


def argsort(x, axis=-1, kind=None, **kw):
    a = asarray(x)
    if a.ndim != 1:
        raise Unsupported("argsort of nd array")
    n = a.shape[0]
    rd = a.snap()
    c = ctx()
    if is_num(n) and builtin_all(is_num(rd(k)) for k in builtin_range(n)):
        vals = [rd(k) for k in builtin_range(n)]
        o = sorted(builtin_range(n), key=lambda k: vals[k])
        return from_nested(o, "i") if o else zeros(0, int)
    pf = c.fresh_fn("perm", I, I)
    qf = c.fresh_fn("perminv", I, I)
    made = set()

    def p(k):
        e = pf(ex(k))
        if c.once(("perm", e)):
            se = z3.simplify(e)
            made.add(se.get_id())
            c.hold(se)
            c.note(n, ex(k))
            c.fact(z3.Implies(z3.And(ex(k) >= 0, ex(k) < ex(n)), z3.And(e >= 0, e < ex(n), qf(e) == ex(k))))
        return S(e)
    # positions in the sorted order are indices of the same length
    def onto(i):
        e = qf(ex(i))
        se = z3.simplify(e)
        made.add(se.get_id())
        c.hold(se)
        c.note(n, e)
        return z3.And(e >= 0, e < ex(n), pf(e) == ex(i))
    c.assume_all([n], onto, "perm-onto", skip=lambda i: i.get_id() in made)
    c.assume_all([n, n], lambda i, j: z3.Implies(ex(i) < ex(j), num(rd(p(i))) <= num(rd(p(j)))), "perm-sorted",
                 skip=lambda i, j: i.get_id() == j.get_id())
    res = SymArray((n,), p, "i")
    res.tag = ("perm", p, lambda i: S(qf(ex(i))))
    return res


def sort(x, axis=-1):
    a = asarray(x)
    ax = norm_axis(axis, a.ndim)
    d = a.shape[ax]
    rd = a.snap()
    if is_num(d) and 3 <= d <= 4 and a.kind == "i":
        # opaque: a permutation of the values in increasing order
        import itertools
        c = ctx()
        f = c.fresh_fn("sorted", *([I] * a.ndim), I)

        def el(*i):
            pre, post = [ex(x) for x in i[:ax]], [ex(x) for x in i[ax + 1:]]
            out = [f(*pre, z3.IntVal(k), *post) for k in builtin_range(d)]
            if c.once(("sorted", out[0])):
                vals = [num(rd(*i[:ax], k, *i[ax + 1:])) for k in builtin_range(d)]
                c.fact(z3.And(*[out[k] <= out[k + 1] for k in builtin_range(d - 1)]))
                c.fact(z3.Or(*[z3.And(*[x == y for x, y in zip(out, p)]) for p in itertools.permutations(vals)]))
            return select([lambda v=v: S(v) for v in out], i[ax])
        return SymArray(a.shape, el, a.kind)
    if is_num(d) and d <= 4:
        def el(*i):
            vals = [rd(*i[:ax], k, *i[ax + 1:]) for k in builtin_range(d)]
            # sorting network by insertion
            for p in builtin_range(1, d):
                for q in builtin_range(p, 0, -1):
                    lo, hi = smin(vals[q - 1], vals[q]), smax(vals[q - 1], vals[q])
                    vals[q - 1], vals[q] = lo, hi
            return select([lambda v=v: v for v in vals], i[ax])
        return SymArray(a.shape, el, a.kind)
    if a.ndim == 1:
        return a[argsort(a)]
    raise Unsupported("sort")


def searchsorted(a, v, side="left", sorter=None):
    """a sorted; number of entries < v (left) or <= v (right)"""
    a = asarray(a)
    n = a.shape[0]
    rd = a.snap()
    c = ctx()
    vv = asarray(v)
    rv = vv.snap()
    # precondition: sorted
    f = c.fresh_fn("ss", *([I] * vv.ndim), I)
    lt = (lambda x, y: x < y) if side == "left" else (lambda x, y: x <= y)
    i, j = S(c.fresh("ssi", I)), S(c.fresh("ssj", I))

    def el(*i):
        e = f(*[ex(k) for k in i])
        if c.once(("ss", e)):
            val = num(rv(*i))
            c.fact(z3.And(e >= 0, e <= ex(n)))
            c.note(n, e)
            c.assume_all([n], lambda k: (ex(k) < e) == lt(num(rd(k)), val), "searchsorted")
        return S(e)
    c.need_sorted = getattr(c, "need_sorted", [])
    c.need_sorted.append((n, rd))
    return scalarise(SymArray(vv.shape, el, "i"))


def bincount(a, minlength=0, **kw):
    raise Unsupported("bincount")


# ------------------------------------------------------------------ matrices / sparse
class Matrix:
    """np.matrix"""

    def __init__(self, a):
        self.a = asarray(a)
        self.ndim = 2

    @property
    def shape(self):
        return self.a.shape

    def __getitem__(self, k):
        r = self.a[k]
        if isinstance(r, SymArray) and r.ndim == 2:
            return Matrix(r)
        if isinstance(r, SymArray) and r.ndim == 1:
            return Matrix(r[None, :])
        return r

    def __setitem__(self, k, v):
        self.a[k] = v.a if isinstance(v, Matrix) else v

    def __eq__(self, o):
        return Matrix(self.a == o)

    def __sub__(self, o):
        return Matrix(self.a - (o.a if isinstance(o, Matrix) else o))

    def __rsub__(self, o):
        return Matrix(asarray(o) - self.a)


def matrix(a):
    return Matrix(asarray(a).copy())


class Sparse:
    def rowsum(self, axis):
        raise Unsupported("sparse sum")


def pad(a, padding, mode="constant", **kw):
    """np.pad for 'edge', 'constant' and 'linear_ramp'"""
    a = asarray(a)
    if is_num(padding):
        padding = [(padding, padding)] * a.ndim
    padding = [tuple(p) for p in padding]
    sh = [norm_dim(d + p + q) for d, (p, q) in zip(a.shape, padding)]
    for p, q in padding:
        for z in (p, q):
            if is_num(z):
                if z < 0:
                    raise ValueError("index can't contain negative values")
            elif not ctx().decide(z3.simplify(ex(z) >= 0)):
                raise ValueError("index can't contain negative values")
    rd = a.snap()

    def clampi(i, d):
        if is_num(i) and is_num(d):
            return builtin_max(0, builtin_min(i, d - 1))
        return norm_index(S(z3.If(ex(i) < 0, 0, z3.If(ex(i) >= ex(d), ex(d) - 1, ex(i)))))

    def inside(i):
        cs = []
        for x, d, (p, q) in zip(i, a.shape, padding):
            cs.append(z3.And(ex(x) >= ex(p), ex(x) < ex(p) + ex(d)))
        return z3.And(*cs)
    if mode == "edge":
        return SymArray(sh, lambda *i: rd(*[clampi(norm_index(x - p), d) for x, d, (p, q) in zip(i, a.shape, padding)]), a.kind)
    if mode == "constant":
        cv = kw.get("constant_values", 0)
        if isinstance(cv, (tuple, list)):
            if builtin_len(cv) == 1:
                cv = (cv[0], cv[0])
            lo, hi = cv
            if isinstance(lo, (tuple, list)):
                raise Unsupported("pad constants")
        else:
            lo = hi = cv

        def el(*i):
            # later axes overwrite earlier ones
            v = rd(*[clampi(norm_index(x - p), d) for x, d, (p, q) in zip(i, a.shape, padding)])
            r = v
            for x, d, (p, q) in zip(i, a.shape, padding):
                r = ite(S(ex(x) < ex(p)), lo, ite(S(ex(x) >= ex(p) + ex(d)), hi, r))
            return cast_scalar(r, a.kind)
        return SymArray(sh, el, a.kind)
    if mode == "linear_ramp":
        ev = kw.get("end_values", 0)
        lo, hi = ev if isinstance(ev, (tuple, list)) else (ev, ev)

        cur = a
        for ax in builtin_range(a.ndim):
            cur = ramp_axis(cur, ax, padding[ax], lo, hi)
        return cur
    raise Unsupported("pad mode " + str(mode))


def ramp_axis(a, ax, pq, lo, hi):
    """contract of a linear ramp: on each side the values run from the end value (outermost) to the edge value,
    never leaving the interval between the two"""
    p, q = pq
    rd = a.snap()
    d = a.shape[ax]
    sh = list(a.shape)
    sh[ax] = norm_dim(d + p + q)
    c = ctx()
    f = [c.fresh_fn("ramp", *([I] * a.ndim), R) for _ in builtin_range(2)]

    def side(k, i, edge, end, on, outer):
        v = f[k](*[ex(y) for y in i])
        if c.once(("ramp", v)):
            x, y = real(edge), real(end)
            c.fact(z3.Implies(on, z3.And(z3.Or(z3.And(x <= v, v <= y), z3.And(y <= v, v <= x)),
                                         z3.Implies(outer, v == y))))
        return S(v)

    def el(*i):
        x = i[ax]

        def at(k):
            return rd(*i[:ax], k, *i[ax + 1:])
        left, right = ex(x) < ex(p), ex(x) >= ex(p) + ex(d)
        v = at(norm_index(S(z3.If(left, z3.IntVal(0), z3.If(right, ex(d) - 1, ex(x) - ex(p))))))
        if not (is_num(q) and q == 0):
            v = ite(S(right), side(1, i, at(norm_index(d - 1)), hi, right, ex(x) == ex(p) + ex(d) + ex(q) - 1), v)
        if not (is_num(p) and p == 0):
            v = ite(S(left), side(0, i, at(0), lo, left, ex(x) == 0), v)
        return v
    return SymArray(sh, el, "f")


# ------------------------------------------------------------------ misc
class _Finfo:
    eps = S(z3.Real("eps_machine"))


def finfo(t=None):
    c = ctx()
    e = z3.Real("eps_machine")
    if c.once(("eps", e)):
        c.fact(z3.And(e > 0, e < z3.RealVal("1/1000000000000")))
    return _Finfo


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    return all(a == b)


def allclose(*a, **k):
    raise Unsupported("allclose")


class _DT:
    def __init__(self, k):
        self._kind = k

    def __call__(self, x=0.0):
        if is_arr(x):
            return asarray(x).astype(self)
        return cast_scalar(x, self._kind)


double = float64 = float32 = float_ = _DT("f")
int32 = int64 = intp = uint32 = int_ = _DT("i")
bool_ = _DT("b")
from .logic import INF   # noqa: E402
inf = S(INF)
pi = S(z3.Real("pi"))
newaxis = None
ndarray = SymArray


class _Random:
    def seed(self, s):
        ctx().calls.append(("np.random.seed", s))

    def rand(self, *shape):
        c = ctx()
        sh = shp(shape)
        f = c.fresh_fn("rand", *([I] * builtin_len(sh)), R)
        c.calls.append(("np.random.rand", sh))

        def el(*i):
            e = f(*[ex(j) for j in i])
            if c.once(("rand", e)):
                c.fact(z3.And(e >= 0, e < 1))
            return S(e)
        a = SymArray(sh, el, "f")
        c.rands = getattr(c, "rands", [])
        c.rands.append(a)
        return a


random = _Random()


def take(a, ix, axis=None):
    a = asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return a[(slice(None),) * norm_axis(axis, a.ndim) + (ix,)]


def compress(cond, a, axis=None):
    return take(a, asarray(cond).astype(bool), axis)


def setdiff1d(a, b, assume_unique=False):
    a = asarray(a).ravel() if assume_unique else unique(a)
    return a[~in1d(a, b)]


def intersect1d(a, b, assume_unique=False):
    a = sort(asarray(a).ravel()) if assume_unique else unique(a)
    return a[in1d(a, b)]


def union1d(a, b):
    return unique(concatenate((asarray(a).ravel(), asarray(b).ravel())))


def outer(a, b):
    return asarray(a).ravel()[:, None] * asarray(b).ravel()[None, :]


def ptp(a, axis=None, keepdims=False):
    return amax(a, axis, keepdims=keepdims) - amin(a, axis, keepdims=keepdims)


def ndim(a):
    return asarray(a).ndim


def shape(a):
    return asarray(a).shape


def size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]


def broadcast_to(a, sh):
    a = asarray(a)
    sh = tuple(sh) if isinstance(sh, (tuple, list)) else (sh,)
    if bshape([a.shape, sh]) is None:
        raise Unsupported("broadcast_to")
    return SymArray(tuple(norm_dim(d) for d in sh), bread(a, sh), a.kind)


def eye(n, m=None, k=0, dtype=float):
    m = n if m is None else m
    kd = kind_of(dtype)
    return SymArray((norm_dim(n), norm_dim(m)), lambda i, j: cast_scalar(ite(eqc(norm_index(i + k), j), 1, 0), kd), kd)


def identity(n, dtype=float):
    return eye(n, dtype=dtype)


def copyto(dst, src, where=True):
    if where is True:
        dst[...] = src
    else:
        w = asarray(where)
        dst[w] = broadcast_to(src, dst.shape)[w]


def average(a, axis=None, weights=None):
    if weights is not None:
        raise Unsupported("weighted average")
    return mean(a, axis)


def radians(a):
    return asarray(a) * (pi / 180) if is_arr(a) else a * (pi / 180)


def degrees(a):
    return asarray(a) * (180 / pi) if is_arr(a) else a * (180 / pi)


deg2rad, rad2deg = radians, degrees


def reciprocal(a):
    if is_arr(a) and asarray(a).kind != "f":
        raise Unsupported("integer reciprocal")
    return 1.0 / a


def isclose(a, b, rtol=1e-5, atol=1e-8, **kw):
    plain_kw(kw)
    return abs(a - b) <= atol + rtol * abs(b)


def float_power(a, b):
    return power(a, b)


def invert(a):
    return ~asarray(a)


bitwise_not = invert


def bools(f):
    def g(a, b, **kw):
        a, b = asarray(a), asarray(b)
        if a.kind != "b" or b.kind != "b":
            raise Unsupported("bitwise operation on integers")
        return f(a, b, **kw)
    return g


bitwise_and, bitwise_or = bools(logical_and), bools(logical_or)


def logical_xor(a, b):
    return asarray(a).astype(bool) != asarray(b).astype(bool)


bitwise_xor = bools(logical_xor)
row_stack = vstack
asanyarray = asarray
asfortranarray = ascontiguousarray


def ix_(*seqs):
    n = builtin_len(seqs)
    out = []
    for k, q in builtin_enumerate(seqs):
        a = asarray(q)
        if a.kind == "b":
            a = where(a)[0]
        for j in builtin_range(n):
            if j != k:
                a = expand_dims(a, 0 if j < k else a.ndim)
        out.append(a)
    return tuple(out)


def moveaxis(a, src, dst):
    a = asarray(a)
    if not (is_num(src) and is_num(dst)):
        raise Unsupported("moveaxis")
    src, dst = norm_axis(src, a.ndim), norm_axis(dst, a.ndim)
    order = [k for k in builtin_range(a.ndim) if k != src]
    order.insert(dst, src)
    return transpose(a, tuple(order))


class linalg:
    @staticmethod
    def norm(a, ord=None, axis=None, keepdims=False):
        a = asarray(a)
        if isinstance(axis, (tuple, list)):
            if builtin_len(axis) != 1:
                raise Unsupported("matrix norm")
            axis = axis[0]
        if ord is not None and (a.ndim != 1 and axis is None):
            raise Unsupported("matrix norm")
        if ord in (None, 2):
            return sqrt(sum(a * a, axis, keepdims=keepdims))
        if is_num(ord) and ord == 1:
            return sum(abs(a), axis, keepdims=keepdims)
        if ord == inf:
            return amax(abs(a), axis, keepdims=keepdims)
        raise Unsupported("norm")

    @staticmethod
    def det(a):
        a = asarray(a)
        n = a.shape[-1]
        if a.ndim < 2 or not is_num(n) or not is_num(a.shape[-2]) or n != a.shape[-2] or n > 4:
            raise Unsupported("det")
        rd = a.snap()

        def minor(i, rows, cols):
            if not rows:
                return 1.0
            r = 0.0
            for k, col in builtin_enumerate(cols):
                v = rd(*i, rows[0], col) * minor(i, rows[1:], cols[:k] + cols[k + 1:])
                r = (v if k == 0 else r + v) if k % 2 == 0 else r - v
            return r
        full_ = tuple(builtin_range(n))
        return scalarise(SymArray(a.shape[:-2], lambda *i: minor(i, full_, full_), "f"))


def __getattr__(name):
    if name == "round":
        return around
    raise Unsupported(f"numpy.{name} has no contract")
