"""an in-process communicator: one thread per rank, only one runs at a time, deadlocks are detected

send is either eager (buffered) or a rendezvous (returns only when the message was received), as MPI allows both."""
import copy
import pickle
import threading

import numpy as np


class Deadlock(Exception):
    pass


class World:
    def __init__(self, size, rendezvous=True, order=None, rng=None, limit=200000):
        self.size, self.rdv = size, rendezvous
        self.cv = threading.Condition()
        self.turn = None
        self.state = ["new"] * size        # run | wait | done
        self.pred = [None] * size
        self.q = {}                        # (src, dst, tag) -> list of payloads
        self.taken = {}
        self.log = []
        self.dead = False
        self.coll = {}
        self.collno = [0] * size
        self.rng = rng or np.random.default_rng(0)
        self.steps, self.limit = 0, limit

    # -- scheduling: called with cv held
    def _next(self):
        self.steps += 1
        ready = [r for r in range(self.size) if self.state[r] in ("ready",) or (self.state[r] == "wait" and self.pred[r]())]
        if ready and self.steps < self.limit:
            self.turn = int(ready[self.rng.integers(len(ready))])
        elif all(s == "done" for s in self.state):
            self.turn = None
        else:
            self.dead = True
        self.cv.notify_all()

    def block(self, r, pred):
        """give up the baton until pred holds"""
        with self.cv:
            self.state[r] = "wait"
            self.pred[r] = pred
            self._next()
            while self.turn != r and not self.dead:
                self.cv.wait()
            if self.dead:
                raise Deadlock(f"rank {r} waits for ever")
            self.state[r] = "run"

    def run(self, fn, timeout=60):
        """fn(comm) on every rank; returns results, raises the first error"""
        res, err = [None] * self.size, [None] * self.size

        def main(r):
            try:
                with self.cv:
                    while self.turn != r and not self.dead:
                        self.cv.wait()
                    self.state[r] = "run"
                if not self.dead:
                    res[r] = fn(Comm(self, r))
            except BaseException as e:      # noqa
                err[r] = e
            finally:
                with self.cv:
                    self.state[r] = "done"
                    if err[r] is not None:
                        self.dead = True
                        self.cv.notify_all()
                    else:
                        self._next()
        ths = [threading.Thread(target=main, args=(r,), daemon=True) for r in range(self.size)]
        for t in ths:
            t.start()
        with self.cv:
            self.state = ["ready"] * self.size
            self._next()
        for t in ths:
            t.join(timeout)
            if t.is_alive():
                with self.cv:
                    self.dead = True
                    self.cv.notify_all()
                raise Deadlock("a rank does not return")
        e = [x for x in err if x is not None]
        e.sort(key=lambda x: isinstance(x, Deadlock))
        if e:
            raise e[0]
        return res

    def pending(self):
        return {k: len(v) for k, v in self.q.items() if v}


class Comm:
    def __init__(self, w, r):
        self.w, self.rank, self.size = w, r, w.size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    @staticmethod
    def _cp(x):
        try:
            return pickle.loads(pickle.dumps(x))
        except Exception:
            return copy.deepcopy(x)

    def send(self, obj, dest, tag=0):
        assert 0 <= dest < self.size and dest != self.rank, f"rank {self.rank} sends to {dest}"
        k = (self.rank, int(dest), tag)
        cell = {"data": self._cp(obj), "taken": False}
        self.w.q.setdefault(k, []).append(cell)
        self.w.log.append(("send", self.rank, int(dest), tag, cell["data"]))
        if self.w.rdv:
            self.w.block(self.rank, lambda: cell["taken"])
        else:
            self.w.block(self.rank, lambda: True)

    def recv(self, buf=None, source=None, tag=None, status=None):
        assert 0 <= source < self.size and source != self.rank, f"rank {self.rank} receives from {source}"

        def find():
            for k, v in self.w.q.items():
                if k[0] == source and k[1] == self.rank and (tag is None or tag < 0 or k[2] == tag) and v:
                    return v
            return None
        self.w.block(self.rank, lambda: find() is not None)
        c = find().pop(0)
        c["taken"] = True
        self.w.log.append(("recv", self.rank, int(source), tag, c["data"]))
        return c["data"]

    def _coll(self, kind, val):
        n = self.w.collno[self.rank]
        self.w.collno[self.rank] += 1
        d = self.w.coll.setdefault(n, {"kind": kind, "vals": {}})
        if d["kind"] != kind:
            raise Deadlock(f"rank {self.rank} is in {kind} while others are in {d['kind']}")
        d["vals"][self.rank] = val
        self.w.block(self.rank, lambda: len(d["vals"]) == self.size)
        return d["vals"]

    def bcast(self, obj=None, root=0):
        v = self._coll(("bcast", root), self._cp(obj) if self.rank == root else None)
        return self._cp(v[root])

    def barrier(self):
        self._coll(("barrier",), None)

    Barrier = barrier

    def gather(self, obj, root=0):
        v = self._coll(("gather", root), self._cp(obj))
        return [self._cp(v[i]) for i in range(self.size)] if self.rank == root else None

    def allgather(self, obj):
        v = self._coll(("allgather",), self._cp(obj))
        return [self._cp(v[i]) for i in range(self.size)]

    def scatter(self, obj=None, root=0):
        v = self._coll(("scatter", root), self._cp(obj) if self.rank == root else None)
        return self._cp(v[root][self.rank])

    @staticmethod
    def _op(op, vals):
        from mpi4py import MPI
        f = next(g for m, g in ((MPI.SUM, lambda a, b: a + b), (MPI.MIN, np.minimum), (MPI.MAX, np.maximum)) if op == m)
        r = vals[0]
        for v in vals[1:]:
            r = f(r, v)
        return r

    def allreduce(self, obj, op=None):
        from mpi4py import MPI
        op = op if op is not None else MPI.SUM
        v = self._coll(("allreduce", str(op)), self._cp(obj))
        return self._op(op, [v[i] for i in range(self.size)])

    def reduce(self, obj, op=None, root=0):
        r = self.allreduce(obj, op)
        return r if self.rank == root else None

    def Reduce(self, send, recv, op=None, root=0):
        from mpi4py import MPI
        op = op if op is not None else MPI.SUM
        v = self._coll(("Reduce", root, str(op)), np.array(send))
        if self.rank == root:
            recv[...] = self._op(op, [v[i] for i in range(self.size)])

    def Allreduce(self, send, recv, op=None):
        from mpi4py import MPI
        op = op if op is not None else MPI.SUM
        v = self._coll(("Allreduce", str(op)), np.array(send))
        recv[...] = self._op(op, [v[i] for i in range(self.size)])

    def Get_name(self):
        return "fake"
