"""The loop rule.

Loops over sequences of known length are executed element by element.  A loop of
symbolic length (or a `while` whose condition is undecided) is cut with the
sidecar invariant registered for the function: invariant holds initially; from an
arbitrary state satisfying it one iteration re-establishes it; the code after the
loop starts from an arbitrary state satisfying it (with the exit condition, or with
the state in which the body left the loop).  Loops that only append one value per
iteration to fresh lists are summarised without an invariant."""
import z3

from . import symnp
from .logic import S, Unsupported, PathEnd, ctx, ex, is_num, boolx, I, And, All


class Poison:
    """value of a variable the invariant says nothing about"""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def _bad(self, *a, **k):
        raise Unsupported(f"loop variable {self._name} is used after the loop cut but not covered by the invariant")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        self._bad()

    __call__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __mul__ = __len__ = __iter__ = __bool__ = _bad
    __lt__ = __gt__ = __le__ = __ge__ = __rmul__ = __rsub__ = __truediv__ = _bad


class Inv:
    """sidecar loop contract.

    havoc(c, env, i) -> dict of fresh values for the loop variables at iteration i
    holds(c, env, i) -> list of (name, formula) of the invariant on a state
    """

    def __init__(self, name, matches, havoc, holds, exit_facts=None):
        self.name, self.matches, self.havoc, self.holds = name, matches, havoc, holds
        self.exit_facts = exit_facts


def vc_for(world, ident, it, body, get, set_):
    from .pyload import as_seq
    s = as_seq(it)
    if s is None and isinstance(it, (range, list)) and len(it):
        inv = find(world, ident, get(), None)
        if inv is not None and getattr(inv, "force", False):
            # a short loop cut by an invariant all the same
            from . import symnp as _s
            seq = it
            s = (len(seq), (lambda i: seq[0] + i if not is_num(i) else seq[i]) if isinstance(seq, range)
                 and seq.step == 1 else (lambda i: _s.select([lambda v=v: v for v in seq], i)))
    if s is None:
        for x in it:
            r = body(x)
            if r is None:
                continue
            if r == "break":
                break
            return r
        return None
    n, item = s
    return cut(world, ident, n, item, None, body, get, set_)


def vc_while(world, ident, cond, body, get, set_):
    inv = find(world, ident, get(), None)
    if inv is None:
        for _ in range(64):
            if not cond():
                return None
            r = body()
            if r is None:
                continue
            if r == "break":
                return None
            return r
        raise Unsupported(f"while loop without invariant in {ident[1]}")
    return cut(world, ident, None, None, cond, body, get, set_)


def find(world, ident, env, n):
    for inv in (world.loops or []):
        try:
            if inv.matches(ident, env):
                return inv
        except (KeyError, AttributeError, TypeError):
            continue
    return None


def attr(x, name):
    try:
        return getattr(x, name, None)
    except Unsupported:
        return None


def state_of(v):
    """what must not change when an object is not among the mutated ones"""
    if isinstance(v, symnp.SymArray):
        return getattr(getattr(v, "buf", None), "version", None)
    if isinstance(v, list):
        return (len(v),) + tuple(id(x) for x in list.__iter__(v))
    if attr(v, "rd") is not None and attr(v, "n") is not None:         # C++ vectors
        return id(v.rd), id(getattr(v, "ln", None)), v.n if is_num(v.n) else ex(v.n).get_id()
    return None


def cut(world, ident, n, item, cond, body, get, set_):
    c = ctx()
    env0 = get()
    inv = find(world, ident, env0, n)
    if inv is None:
        if n is not None:
            return getattr(world, "auto", auto)(world, ident, n, item, body, get, set_, env0)
        raise Unsupported(f"loop without invariant in {ident[1]}")
    X = c.explorer
    mutated = set(ident[4])
    for nm, f in inv.holds(c, env0, 0):
        X.oblige(c, f"loop {inv.name}: {nm} holds initially", f)

    def havocked(i):
        try:
            new = inv.havoc(c, dict(env0), i)
        except KeyError as e:
            raise Unsupported(f"loop contract {inv.name} does not fit: {e}")
        st = {}
        for v in mutated:
            if v in env0 or v in new:
                st[v] = new[v] if v in new else Poison(v)
        for v in new:
            st[v] = new[v]
        return st
    if c.choose("loop"):
        # arbitrary iteration
        i = S(c.fresh("it", I))
        c.assume(i.e >= 0)
        if n is not None:
            c.assume(i.e < ex(n))
            c.note(n, i.e)
        st = havocked(i)
        set_(st)
        env = get()
        for nm, f in inv.holds(c, env, i):
            c.assume(f)
        rest = [(v, env[v], state_of(env[v])) for v in env0 if v not in st and v in env]
        keep = [attr(x, "rd") for _, x, _ in rest]
        if cond is not None:
            if not cond():
                raise PathEnd("exit explored on the other path")
            r = body()
        else:
            r = body(item(i))
        for v, x, was in rest:
            if state_of(x) != was:
                raise Unsupported(f"the loop changes {v} through a call")
        del keep
        if r is None:
            env = get()
            try:
                hs = inv.holds(c, env, i + 1)
            except KeyError as e:
                raise Unsupported(f"loop contract {inv.name} does not fit: {e}")
            for nm, f in hs:
                X.oblige(c, f"loop {inv.name}: {nm} is preserved", f)
            raise PathEnd("iteration checked")
        if r == "break":
            return None
        return r
    # after the loop
    k = n if n is not None else S(c.fresh("itend", I))
    if n is None:
        c.assume(ex(k) >= 0)
    else:
        c.assume(ex(k) >= 0)
    st = havocked(k)
    set_(st)
    env = get()
    for nm, f in inv.holds(c, env, k):
        c.assume(f)
    if cond is not None:
        if cond():
            raise PathEnd("loop continues")
    return None


def auto(world, ident, n, item, body, get, set_, env0):
    """append-only loops: each listed list receives exactly one value per iteration"""
    c = ctx()
    lists = {k: v for k, v in env0.items() if (type(v) is list or isinstance(v, symnp.SymList)) and k in ident[4]}
    others = {k for k in ident[4] if k not in lists}

    def run(i):
        probes = {k: [] for k in lists}
        # evaluated later: the other variables have the values they have now
        before = get()
        st = {**env0, **probes}
        for o in others:
            st[o] = Poison(o)
        set_(st)
        # aliases of the lists must not be visible
        r = body(item(i))
        out = get()
        for k in probes:
            if out.get(k) is not probes[k]:
                raise Unsupported("list rebound in a summarised loop")
        set_(before)
        if r is not None:
            raise Unsupported("loop leaves early: needs an invariant")
        return probes
    w0 = len(c.writes)
    probe = run(S(c.fresh("iprobe", I)))
    if len(c.writes) != w0:
        raise Unsupported(f"loop with array stores needs an invariant in {ident[1]}")
    memo = {}

    def at(i):
        i = symnp.norm_index(i)
        k = i if is_num(i) else ex(i).get_id()
        if k not in memo:
            if not is_num(i):
                c.hold(ex(i))
            memo[k] = run(S(ex(i)) if not is_num(i) else i)
        return memo[k]
    st = {}
    for k, v in lists.items():
        if len(probe[k]) == 0:
            continue
        if len(probe[k]) != 1:
            raise Unsupported("loop appends several values per iteration")
        if isinstance(v, symnp.SymList):
            st[k] = joined(v.n, v.get, n, lambda i, k=k: at(i)[k][0])
            continue
        m = len(v)
        if m:
            st[k] = symnp.SymList(symnp.norm_dim(n + m), lambda i, k=k, v=list(v), m=m: (
                symnp.select([lambda x=x: x for x in v], i) if is_num(i) and i < m else at(i - m)[k][0])
                if is_num(i) else Unsupp())
        else:
            st[k] = symnp.SymList(n, lambda i, k=k: at(i)[k][0])
    for o in others:
        if o in env0:
            st[o] = Poison(o)
    set_(st)
    return None


def joined(m, first, n, second):
    """m values followed by n values"""
    def get(i):
        e = symnp.ltc(i, m)
        if e is True:
            return first(i)
        if e is False:
            return second(symnp.norm_index(i - m))
        return either(e, first(i), second(symnp.norm_index(i - m)))
    return symnp.SymList(symnp.norm_dim(m + n), get)


def either(e, a, b):
    if isinstance(a, symnp.SymArray) or isinstance(b, symnp.SymArray):
        a, b = symnp.asarray(a), symnp.asarray(b)
        if len(a.shape) != len(b.shape) or not all(symnp.dims_equal(x, y) is True for x, y in zip(a.shape, b.shape)):
            raise Unsupported("a list of arrays of different shapes")
        ra, rb = a.snap(), b.snap()
        return symnp.SymArray(a.shape, lambda *j: symnp.ite(e, ra(*j), rb(*j)), symnp.join_kinds([a.kind, b.kind]))
    return symnp.ite(e, a, b)


def Unsupp():
    raise Unsupported("loop appends to a non-empty list")
