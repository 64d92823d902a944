"""contract of the communicator: every call is recorded in program order, received values are arbitrary"""
from ..hlp import *
from .. import symnp, logic
from ..logic import Unsupported


class Comm:
    def __init__(self, c, lo=1, recv=None):
        self.c = c
        self.n, self.r = iv(c, "size", lo), iv(c, "rank", 0)
        c.assume(self.r.e < self.n.e)
        self.log = []
        self.recv_value = recv

    rank = property(lambda self: self.r)
    size = property(lambda self: self.n)

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.n

    def send(self, obj, dest=None, tag=0):
        if dest is None:
            raise Unsupported("send without destination")
        if isinstance(obj, symnp.SymArray):
            obj = obj.copy()
        self.log.append(("send", dest, tag, obj))

    def recv(self, source=None, tag=None, **k):
        if source is None or tag is None:
            raise Unsupported("receive from anyone")
        v = self.recv_value(source, tag)
        self.log.append(("recv", source, tag, v))
        return v

    def bcast(self, obj, root=0):
        raise Unsupported("broadcast")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("communicator." + k)
