"""numpy contracts of the verifier against numpy itself, on concrete arrays (python3-vt tools/np_crosscheck.py)"""
import fractions
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import numpy as np
from vf import symnp, logic

EXPR = """
N.take(A,[0,2],axis=0)|N.take(A,[1,0],1)|N.take(v,[2,2,0])|N.compress(v>0,A,axis=0)|N.setdiff1d(k,[1,3])|N.intersect1d(k,[1,3,9])
N.union1d(k,[7,1])|N.outer(v,w)|N.ptp(A,axis=0)|N.ptp(v)|N.broadcast_to(w,(4,3))|N.eye(3)|N.identity(2)|N.average(A,1)|A.sum(0,keepdims=True)
N.sum(A,axis=1,keepdims=True)|A.min(1,keepdims=True)|A.max(axis=0)|A.mean(1)|A.mean(axis=0,keepdims=True)|N.linalg.norm(A,axis=1,keepdims=True)
N.linalg.norm(A,1,1)|N.linalg.norm(A,N.inf,1)|N.linalg.norm(v)|N.linalg.det(B)|N.linalg.det(B[0])|N.prod(A,axis=1)|N.prod(v)|A.prod()|N.sum(A,(0,1))
N.isclose(A,A+1e-9)|N.logical_xor(v>0,w4>0)|N.bitwise_and(v>0,w4>0)|~(v>0)|N.clip(A,-0.5,0.5)|A.clip(0,1)|N.where(A>0,A,0)|N.where(v>0)[0]
N.argwhere(A>0)|N.nonzero(v>0)[0]|N.flatnonzero(A>0)|N.cross(P,Q)|N.dot(A,A.T)|A@A.T|N.einsum('ij,ij->i',A,A)|N.einsum('ij,kj->ik',A,A)
N.sort(v)|N.argsort(v)|N.unique(k)|N.unique(k,return_counts=True)[1]|N.unique(k,return_index=True)[1]|N.unique(k,return_inverse=True)[1]
N.searchsorted(N.sort(v),[0.0,0.3])|N.cumsum(v)|N.diff(v)|N.repeat(v,2)|N.tile(v,2)|N.repeat(A,2,axis=0)|N.stack((v,w4))|N.stack((v,w4),axis=1)
N.hstack((v,w4))|N.vstack((v,w4))|N.column_stack((v,w4))|N.concatenate((A,A),axis=1)|N.delete(A,[1],axis=0)|N.delete(v,[0,-1])|N.append(v,w)
N.append(A,A,axis=0)|N.flip(A,0)|N.flipud(A)|N.fliplr(A)|A.T|N.swapaxes(B,0,2)|N.transpose(B,(1,2,0))|A.reshape(3,4)|A.ravel()|A.reshape(-1,2)
N.squeeze(A[None])|N.atleast_2d(v)|N.expand_dims(v,1)|N.full((2,3),7)|N.zeros_like(A)|N.ones((2,2))|N.arange(2,9,3)|N.linspace(0,1,5)
N.isin(k,[1,5])|N.any(A>0,axis=0)|N.all(A>0,axis=1)|N.any(A>1.5)|N.count_nonzero(A>0)|N.argmin(v)|N.argmax(v)|N.maximum(A,0)|N.minimum(v,w4)
N.abs(A)|N.sign(A)|N.floor(A*3)|N.ceil(A*3)|N.mod(k,3)|k//2|k%2|A[::-1]|A[:,1]|A[[0,2]][:,[1,0]]|A[v>0]|A[N.ix_([0,1],[1,2])]|N.meshgrid(v,w)[0]|N.meshgrid(v,w,indexing='ij')[1]
N.mgrid[0:3,0:2]|N.pad(A,1,mode='edge')|N.maximum.reduce([v,w4,v])|N.minimum.reduce(A,axis=0)|N.copy(A)|N.array([v,w4])|N.size(A)|N.shape(A)|N.ndim(A)|N.lexsort((v,k[:4]))
N.add(A,1)|N.multiply(A,A)|N.divide(A,2)|N.power(A,2)|A**2|N.square(A)|N.negative(A)|N.hypot(v,w4)|N.array_equal(A,A)|N.split(v,2)[0]|N.roll(v,1)|N.rollaxis(B,2)|N.moveaxis(B,0,2)
N.insert(v,1,9.0)|N.insert(A,0,w,axis=0)|N.triu(A)|N.ravel(A)|N.empty((0,3)).sum(0)|N.sum(N.zeros((0,)))|N.array(v,ndmin=2)|N.max(A)|N.fmax(v,w4)|(v>0).sum()|N.sum(A>0,axis=1)|N.mean(k)
"""


def term(x):
    import z3
    if isinstance(x, logic.S):
        return z3.simplify(x.e)
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    return z3.RealVal(str(fractions.Fraction(float(x))))


def same(c, x, want):
    """'exact': the contract implies numpy's value; 'consistent': it admits it; 'different': it excludes it"""
    import z3
    a, b = term(x), term(want)
    if z3.is_bool(a) != z3.is_bool(b):
        a, b = [z3.simplify(z3.If(t, z3.IntVal(1), z3.IntVal(0))) if z3.is_bool(t) else t for t in (a, b)]
    if not z3.is_bool(a) and a.sort() != b.sort():
        a, b = [z3.simplify(z3.ToReal(t)) if z3.is_int(t) else t for t in (a, b)]
    if z3.is_rational_value(a) or z3.is_int_value(a):
        u, v = (float(t.as_fraction()) if z3.is_rational_value(t) else float(t.as_long()) for t in (a, b))
        return "exact" if abs(u - v) <= 1e-9 * max(1, abs(v)) else "different"
    if z3.is_algebraic_value(a):
        return "exact" if abs(float(a.approx(20).as_fraction()) - float(want)) < 1e-9 else "different"
    if z3.is_real(a) and z3.is_rational_value(b):
        w = fractions.Fraction(1, 10 ** 9)
        near = z3.And(a >= b - z3.RealVal(str(w)), a <= b + z3.RealVal(str(w)))
    else:
        near = a == b
    if c.implied(near, rounds=3):
        return "exact"
    return "different" if c.implied(z3.Not(near), rounds=3) else "consistent"


def compare(c, got, want):
    import z3
    if isinstance(got, (tuple, list)):
        return min((compare(c, g, w) for g, w in zip(got, want)), key=RANK.index)
    want = np.asarray(want)
    if not isinstance(got, symnp.SymArray):
        return same(c, got, want.item()) if want.shape == () else "different"
    if got.ndim != want.ndim:
        return "different"
    r = ["exact"]
    for d, w in zip(got.shape, want.shape):
        r.append(same(c, d, w))
        if r[-1] == "different":
            return "different"
        c.fact(term(d) == w)
    rd = got.snap()
    for i in np.ndindex(*want.shape):
        for d, j in zip(got.shape, i):
            if not symnp.is_num(d):
                c.note(d, z3.IntVal(j))
    for i in np.ndindex(*want.shape):
        r.append(same(c, rd(*i), want[i].item()))
    return min(r, key=RANK.index)


class Free:
    """preconditions of library calls are met by these arguments"""

    def oblige(self, c, what, cond, *a, **k):
        return True


RANK = ["different", "consistent", "exact"]


def main():
    rng = np.random.default_rng(1)
    count = dict.fromkeys(RANK, 0)
    missing = []
    for rep in range(3):
        env = {"A": rng.integers(-16, 17, (4, 3)) / 8.0, "v": rng.permutation(np.arange(-4, 12))[:4] / 4.0, "w": rng.integers(-8, 9, 3) / 4.0,
               "w4": rng.integers(-8, 9, 4) / 4.0, "k": rng.integers(0, 6, 7), "B": rng.integers(-8, 9, (2, 3, 3)) / 4.0,
               "P": rng.integers(-8, 9, (4, 3)) / 4.0, "Q": rng.integers(-8, 9, (4, 3)) / 4.0}
        for line in EXPR.strip().split("\n"):
            for e in line.split("|"):
                want = eval(e, {"N": np, **{a: b.copy() for a, b in env.items()}})
                c = logic.Ctx(explorer=Free())
                logic._cur.append(c)
                try:
                    r = compare(c, eval(e, {"N": symnp, **{a: symnp.asarray(b) for a, b in env.items()}}), want)
                except (logic.Unsupported, TypeError) as u:
                    if rep == 0:
                        missing.append((e, str(u)))
                    continue
                finally:
                    logic._cur.pop()
                count[r] += 1
                if r == "different":
                    print("DIFFERENT", e, want)
                elif r == "consistent" and rep == 0:
                    print("not determined:", e)
    for e, u in missing:
        print("no contract:", e, "--", u)
    print(count, len(missing), "without contract")
    return 1 if count["different"] else 0


if __name__ == "__main__":
    sys.exit(main())
