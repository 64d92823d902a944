"""an arbitrary scalar field"""
from ..hlp import *
from .. import symnp, logic
from ..logic import Unsupported


class Field:
    """an arbitrary scalar function of a point, evaluated row by row; records its calls"""

    def __init__(self, c, dim, name="fd"):
        self.f = c.fresh_fn(name, *([R] * dim), R)
        self.dim = dim
        self.calls = []

    def __call__(self, p):
        p = symnp.asarray(p)
        if p.ndim != 2 or p.shape[1] != self.dim:
            raise Unsupported("the field is evaluated at another kind of argument")
        rd = p.snap()
        self.calls.append(p)
        return symnp.SymArray((p.shape[0],), lambda i: S(self.at([rd(i, d) for d in range(self.dim)])), "f")

    def at(self, x):
        return self.f(*[ex(logic.real(v)) for v in x])
