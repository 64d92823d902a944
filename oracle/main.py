"""Runs the executable contracts of one property on the real code (under /opt/venv).

oracle/<ID>.py defines   run(o)   and uses the helper object below:
   o.group(name, fn, n)      n seeded cases of fn(rng, k)
   raise o.Fail(...)         through o.check(cond, message, inputs...)
Every failure is recorded with its group, case number and inputs, so that it can be
replayed:  /verif/check <ID> replay <file>.
"""
import importlib.util
import json
import os
import sys
import time
import traceback

import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


class Fail(Exception):
    def __init__(self, what, inputs=None, key=None):
        super().__init__(what)
        self.what, self.inputs, self.key = what, inputs, key


def enc(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size <= 4000:
            return {"ndarray": x.tolist(), "dtype": str(x.dtype), "shape": list(x.shape)}
        return {"ndarray_shape": list(x.shape), "note": "regenerate from seed"}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, dict):
        return {str(k): enc(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


class O:
    Fail = Fail

    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.cases = 0
        self.groups = {}
        self.failures = []
        self.bounds = ""
        self.errors = []
        self.distinct = set()
        self.samples = []
        self.t0 = time.time()
        self.limit = 240 if tier == "quick" else 2400
        self.thorough = tier == "thorough"
        self.glimit = None

    def n(self, quick, thorough=None):
        return quick if not self.thorough else (thorough if thorough is not None else quick * 10)

    def group(self, name, fn, n=1, key=None, limit=None):
        """fn(rng, k) for k < n; a raised Fail or an unexpected exception is a violation"""
        if self.only and self.only[0] != name:
            return
        done = 0
        nf = 0
        t0 = time.time()
        for k in range(n):
            if self.only and self.only[1] is not None and k != self.only[1]:
                continue
            if time.time() - self.t0 > self.limit or (limit and time.time() - t0 > limit * (10 if self.thorough else 1)):
                break
            rng = np.random.default_rng([self.seed, hash_str(name), k])
            try:
                fn(rng, k)
            except Fail as f:
                nf += 1
                if nf <= 3:
                    self.failures.append({"group": name, "case": k, "seed": self.seed, "what": f.what,
                                          "inputs": enc(f.inputs), "key": f.key or name})
                elif f.key and not any(x["key"] == f.key for x in self.failures):
                    self.failures.append({"group": name, "case": k, "seed": self.seed, "what": f.what,
                                          "inputs": enc(f.inputs), "key": f.key})
            except Exception as e:
                nf += 1
                if nf <= 3:
                    tb = traceback.format_exc()
                    self.failures.append({"group": name, "case": k, "seed": self.seed,
                                          "what": f"{name}: unexpected {type(e).__name__}: {e}",
                                          "inputs": tb[-1500:], "key": name})
            done += 1
            self.cases += 1
            self.distinct.add((name, k, int(rng.bit_generator.state["state"]["state"]) & (2 ** 61 - 1)))
            if len(self.samples) < 6 and (done == 1):
                self.samples.append({"group": name, "case": k, "seed": self.seed})
        self.groups[name] = self.groups.get(name, 0) + done

    @staticmethod
    def check(cond, what, inputs=None, key=None):
        if not bool(cond):
            raise Fail(what, inputs, key)

    @staticmethod
    def raises(fn, excs=(Exception,), what="", inputs=None, key=None):
        try:
            fn()
        except excs:
            return
        raise Fail(what, inputs, key)


def hash_str(s):
    import hashlib
    return int(hashlib.sha256(s.encode()).hexdigest()[:8], 16)


def main():
    prop, tier, seed, out = sys.argv[1:5]
    only = None
    if len(sys.argv) > 5:
        only = (sys.argv[5], int(sys.argv[6]))
    o = O(prop, tier, int(seed), only)
    spec = importlib.util.spec_from_file_location("oracle_" + prop, os.path.join(HERE, prop + ".py"))
    m = importlib.util.module_from_spec(spec)
    err = None
    try:
        spec.loader.exec_module(m)
        m.run(o)
    except Exception:
        err = traceback.format_exc()
        print(err)
    json.dump({"cases": o.cases, "groups": o.groups, "distinct": len(o.distinct), "samples": o.samples, "failures": o.failures, "bounds": getattr(m, "BOUNDS", ""),
               "error": err}, open(out, "w"))
    for f in o.failures:
        print("FAIL", f["group"], f["case"], f["what"][:500])
    print("cases", o.cases, "failures", len(o.failures))
    sys.stdout.flush()
    os._exit(0)


main()
