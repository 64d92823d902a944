"""Mechanical extraction of the real C++ source.

Every run asks clang (the real headers, -std=c++17 -DNDEBUG as in the build) for the
syntax tree of the functions under contract and transcribes it statement by statement
into the executable form used for the Python code; the loop rule and the contracts are
the same.  What the extraction drops or reinterprets:

  * machine integers are mathematical integers, doubles are reals;
  * `assert` is compiled out (NDEBUG, as in the build), `reserve` has no effect;
  * `std::memcpy` between a NumPy buffer and a vector copies whole elements; copying past
    the end of either is an obligation;
  * vector/array indexing generates an in-range obligation;
  * std::min/max/sort/unique/sqrt/..., pybind11's buffer hand-over and CGAL calls are the
    contracts in this file (library, trusted).

A construct outside this list makes the function `outside the verified subset`."""
import ast
import hashlib
import json
import os
import re
import subprocess
import sysconfig
import tempfile
from fractions import Fraction

import z3

from . import logic, symnp, loops, pyload
from .logic import S, Timed, frozen, Unsupported, PathEnd, ctx, ex, is_num, real, R, I, smin, smax, ssqrt, ite

REPO = os.environ.get("VF_REPO", "/repo")
PYI = "/opt/venv/bin/python"
CLANG = "clang++"


# ------------------------------------------------------------------ syntax trees
def includes():
    out = subprocess.run([PYI, "-m", "pybind11", "--includes"], capture_output=True, text=True)
    return out.stdout.split()


_ast_cache = {}


def cache_dir():
    d = os.path.join(tempfile.gettempdir(), f"vf_ast_{os.getuid()}")
    os.makedirs(d, exist_ok=True)
    return d


def dump(path, fname):
    """JSON trees of the declarations whose name contains fname"""
    src = open(path, "rb").read()
    # local headers count as source
    h = hashlib.sha256(src + fname.encode())
    for root, dirs, files in os.walk(os.path.join(REPO, "SeismicMesh")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hpp", ".hh", ".hxx", ".inc", ".ipp")):
                h.update(open(os.path.join(root, f), "rb").read())
    key = h.hexdigest()
    if key in _ast_cache:
        return _ast_cache[key]
    cf = os.path.join(cache_dir(), key + ".json")
    if os.path.exists(cf):
        try:
            _ast_cache[key] = json.load(open(cf))
            return _ast_cache[key]
        except Exception:
            pass
    cmd = [CLANG, "-std=c++17", "-DNDEBUG", *includes(), "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang",
           f"-ast-dump-filter={fname}", path]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0:
        raise Unsupported(f"clang cannot parse {path}: {p.stderr[-300:]}")
    s, out, i = p.stdout, [], 0
    dec = json.JSONDecoder()
    while True:
        while i < len(s) and s[i] in " \n\r\t":
            i += 1
        if i >= len(s):
            break
        if s[i] != "{":
            i = s.index("\n", i)
            continue
        o, i = dec.raw_decode(s, i)
        out.append(o)
    _ast_cache[key] = out
    try:
        tmp = cf + f".{os.getpid()}"
        json.dump(out, open(tmp, "w"))
        os.replace(tmp, cf)
    except OSError:
        pass
    return out


def kids(n):
    return [c for c in n.get("inner", []) if c and c.get("kind")]


def find_fn(path, fname, owner=None):
    """the definition of a free function, method (owner given) or the single instantiation of a template"""
    hits = []

    def walk(n):
        if not isinstance(n, dict):
            return
        if n.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl") and n.get("name") == fname and any(
                c.get("kind") == "CompoundStmt" for c in kids(n)):
            hits.append(n)
        for c in n.get("inner", []):
            walk(c)
    for o in dump(path, fname):
        if o.get("kind") == "FunctionTemplateDecl":
            fs = [c for c in kids(o) if c.get("kind") == "FunctionDecl"]
            inst = [f for f in fs if any(c.get("kind") == "TemplateArgument" for c in kids(f))]
            for f in inst:
                walk(f)
            continue
        walk(o)
    uniq = {h["id"]: h for h in hits}
    if not uniq:
        raise Unsupported(f"{os.path.basename(path)}: {fname} not found")
    if len(uniq) > 1:
        raise Unsupported(f"{os.path.basename(path)}: {fname} is overloaded or instantiated several times")
    return next(iter(uniq.values()))


def bound(path, name):
    """the function a module binds under a Python name: a function object written in place, or a named function"""
    src = open(path).read()
    m = re.search(r"PYBIND11_MODULE\s*\(\s*(\w+)", src)
    if not m:
        raise Unsupported(f"{os.path.basename(path)} defines no module")
    hits = {}

    def func(n):
        if n.get("kind") == "LambdaExpr":
            return n
        if n.get("kind") == "DeclRefExpr" and n.get("referencedDecl", {}).get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            return n
        for c in kids(n):
            r = func(c)
            if r:
                return r

    def walk(n):
        if n.get("kind") == "CXXMemberCallExpr":
            ch = kids(n)
            if strip(ch[0]).get("name") == "def" and len(ch) > 2:
                a = strip(ch[1])
                if a.get("kind") == "StringLiteral" and a.get("value") == f'"{name}"':
                    f = func(ch[2])
                    if f is None:
                        raise Unsupported(f"{name} is bound to something else")
                    hits[f["id"]] = f
        for c in kids(n):
            walk(c)
    for o in dump(path, "pybind11_init_" + m.group(1)):
        walk(o)
    if len(hits) != 1:
        raise Unsupported(f"{os.path.basename(path)}: {name} is bound {len(hits)} times")
    return next(iter(hits.values()))


def qt(n):
    t = n.get("type", {})
    return t.get("desugaredQualType") or t.get("qualType", "")


def qraw(n):
    return n.get("type", {}).get("qualType", "")


INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "size_t",
        "std::size_t", "ssize_t", "size_type", "unsigned", "unsigned short", "char", "ptrdiff_t", "difference_type"}


def is_int_t(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in INTS or t.split("::")[-1] in INTS


def is_flt_t(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("double", "float", "long double")


def is_scalar_t(t):
    return is_int_t(t) or is_flt_t(t) or t.replace("const ", "").strip() == "bool"


TRANSPARENT = {"ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr",
               "SubstNonTypeTemplateParmExpr", "FullExpr"}
MUTATING = {"resize", "push_back", "clear", "insert", "erase", "assign", "pop_back", "emplace_back", "reserve", "fill",
            "swap"}


def strip(n):
    """through parentheses, temporaries and value-preserving casts"""
    while True:
        if n["kind"] in TRANSPARENT:
            n = kids(n)[0]
        elif n["kind"] in ("ImplicitCastExpr", "CXXStaticCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr") and n.get(
                "castKind") in ("BuiltinFnToFnPtr", "LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay",
                                "IntegralCast", "UserDefinedConversion", "ConstructorConversion", "FloatingCast",
                                "DerivedToBase", "UncheckedDerivedToBase"):
            n = kids(n)[0]
        else:
            return n


class Trans:
    """one C++ function -> source text of one Python function"""

    def __init__(self, fn, unit):
        self.fn = fn
        self.unit = unit
        self.names = {}          # decl id -> name
        self.used = {}           # name -> number of declarations
        self.boxed = set()       # decl ids whose address is taken, or pointer out-parameters' referents
        self.lines = []
        self.ind = 1
        self.tmp = 0
        self.refs = set()
        self.pure = False        # inside a function object whose value must be one expression
        self.loop_inc = []       # increments of enclosing while-form for loops

    def bad(self, n, why=""):
        raise Unsupported(f"C++ construct {n.get('kind')} {why} in {self.fn.get('name')}")

    def emit(self, s):
        self.lines.append("    " * self.ind + s)

    def declare(self, d, scope):
        nm = d.get("name") or f"_anon{len(self.names)}"
        if nm in ("None", "True", "False", "in", "is", "not", "and", "or", "lambda", "def", "from", "pass", "del",
                  "with", "as", "global", "X"):
            nm += "_"
        if nm in scope:            # shadows an outer variable
            k = 2
            while f"{nm}_{k}" in scope:
                k += 1
            nm = f"{nm}_{k}"
        scope.add(nm)
        self.names[d["id"]] = nm
        return nm

    # -- whole function
    def run(self):
        fn = self.fn
        params = [c for c in kids(fn) if c["kind"] == "ParmVarDecl"]
        body = next(c for c in kids(fn) if c["kind"] == "CompoundStmt")
        self.scan(body)
        scope = set()
        ps = [self.declare(p, scope) for p in params]
        for p, nm in zip(params, ps):
            t = qraw(p)
            if "&" not in t and "*" not in t and not is_scalar_t(qt(p)):
                self.emit(f"{nm} = X.copy({nm})")
            if p["id"] in self.boxed:
                self.emit(f"{nm} = X.Box({nm})")
            elif "&" in t and "const" not in t and is_scalar_t(qt(p).replace("&", "").strip()):
                self.refs.add(p["id"])     # mutable scalar reference: passed as a box
        self.params = params
        for i in [c for c in kids(fn) if c["kind"] == "CXXCtorInitializer"]:
            self.bad(i, "constructor initialiser")
        self.block(kids(body), scope)
        if not self.lines:
            self.emit("pass")
        return f"def {fn['name']}({', '.join(ps)}):\n" + "\n".join(self.lines) + "\n"

    def scan(self, n):
        """variables whose address is taken or that are passed to a mutable scalar reference"""
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "&":
            t = strip(kids(n)[0])
            if t["kind"] == "DeclRefExpr" and is_scalar_t(qt(t)):
                self.boxed.add(t["referencedDecl"]["id"])
        for c in kids(n):
            self.scan(c)

    def block(self, stmts, scope):
        scope = set(scope)
        for s in stmts:
            self.stmt(s, scope)

    # -- statements
    def stmt(self, n, scope):
        k = n["kind"]
        if k in TRANSPARENT:
            return self.stmt(kids(n)[0], scope)
        if k == "CompoundStmt":
            before = len(self.lines)
            self.block(kids(n), scope)
            if len(self.lines) == before:
                self.emit("pass")
        elif k == "NullStmt":
            self.emit("pass")
        elif k == "DeclStmt":
            for d in kids(n):
                if d["kind"] in ("TypedefDecl", "TypeAliasDecl", "UsingDecl", "StaticAssertDecl"):
                    continue
                if d["kind"] != "VarDecl":
                    self.bad(d)
                self.var(d, scope)
        elif k == "IfStmt":
            if n.get("hasInit") or n.get("hasVar"):
                self.bad(n, "with declaration")
            ch = kids(n)
            self.emit(f"if {self.cond(ch[0])}:")
            self.suite(ch[1], scope)
            if len(ch) > 2:
                self.emit("else:")
                self.suite(ch[2], scope)
        elif k == "ForStmt":
            self.for_(n, scope)
        elif k == "WhileStmt":
            ch = kids(n)
            self.emit(f"while {self.cond(ch[0])}:")
            self.loop_inc.append(None)
            self.suite(ch[1], scope)
            self.loop_inc.pop()
        elif k == "CXXForRangeStmt":
            self.range_for(n, scope)
        elif k == "ReturnStmt":
            ch = kids(n)
            self.emit("return" + (" " + self.expr(ch[0]) if ch else ""))
        elif k == "BreakStmt":
            self.emit("break")
        elif k == "ContinueStmt":
            inc = self.loop_inc[-1] if self.loop_inc else None
            if inc is not None:
                self.effect(inc)
            self.emit("continue")
        else:
            self.effect(n)

    def suite(self, n, scope):
        self.ind += 1
        before = len(self.lines)
        if n["kind"] == "CompoundStmt":
            self.block(kids(n), scope)
        else:
            self.block([n], scope)
        if len(self.lines) == before:
            self.emit("pass")
        self.ind -= 1

    def var(self, d, scope):
        t, raw = qt(d), qraw(d)
        init = [c for c in kids(d) if not c["kind"].endswith("Attr")]
        if init:
            e = self.expr(init[0])
            nm = self.declare(d, scope)
            if d["id"] in self.boxed:
                e = f"X.Box({e})"
            elif "&" not in raw and not is_scalar_t(t) and strip(init[0])["kind"] in ("DeclRefExpr",
                                                                                     "ArraySubscriptExpr"):
                e = f"X.copy({e})"
            self.emit(f"{nm} = {e}")
            return
        nm = self.declare(d, scope)
        if d["id"] in self.boxed:
            self.emit(f"{nm} = X.Box(X.undef({nm!r}))")
        else:
            self.emit(f"{nm} = {self.default(t, d)}")

    def default(self, t, d):
        if is_scalar_t(t):
            return f"X.undef({d.get('name')!r})"
        base = t.replace("const ", "").strip()
        if base.endswith("]") and "[" in base:
            dims = [int(x) for x in base[base.index("["):].strip("[]").split("][")]
            r = "X.undef('array element')"
            for n in reversed(dims):
                r = f"[{r} for _ in range({n})]"
            return r
        if base.startswith("std::array<"):
            n = int(base.rsplit(",", 1)[1].strip(" >UL").strip())
            return f"X.carray({n})"
        self.bad(d, f"default value of {t}")

    def names_in(self, n, out=None):
        out = set() if out is None else out
        if n.get("kind") == "DeclRefExpr":
            out.add(n["referencedDecl"]["id"])
        for c in kids(n):
            self.names_in(c, out)
        return out

    def assigned_in(self, n, out=None):
        """decl ids possibly changed by a statement"""
        out = set() if out is None else out
        k = n.get("kind")
        tgt = None
        if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("opcode") == "=" or k != "BinaryOperator"):
            tgt = kids(n)[0]
        elif k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
            tgt = kids(n)[0]
        elif k == "CXXOperatorCallExpr":
            op = strip(kids(n)[0]).get("referencedDecl", {}).get("name", "")
            if op in ("operator=", "operator++", "operator--", "operator+=", "operator-="):
                tgt = kids(n)[1]
        elif k == "CXXMemberCallExpr":
            m = strip(kids(n)[0])
            if m.get("name") in MUTATING:
                tgt = kids(m)[0]
        elif k == "CallExpr":
            if strip(kids(n)[0]).get("referencedDecl", {}).get("name") == "make_pair":
                return self.assigned_in_all(kids(n)[1:], out)
            for a in kids(n)[1:]:      # passed by reference: may change
                if a.get("valueCategory") == "lvalue" and not qt(a).startswith("const "):
                    self.base_ids(a, out)
        if tgt is not None:
            self.base_ids(tgt, out)
        for c in kids(n):
            self.assigned_in(c, out)
        return out

    def assigned_in_all(self, ns, out):
        for c in ns:
            self.assigned_in(c, out)
        return out

    def base_ids(self, n, out):
        n = strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            out.add(n["referencedDecl"]["id"])
        elif k in ("ArraySubscriptExpr", "MemberExpr"):
            self.base_ids(kids(n)[0], out)
        elif k == "CXXOperatorCallExpr":
            self.base_ids(kids(n)[1], out)
        elif k == "UnaryOperator":
            self.base_ids(kids(n)[0], out)
        elif k == "CXXMemberCallExpr":
            self.base_ids(kids(strip(kids(n)[0]))[0], out)

    def for_(self, n, scope):
        inner = n.get("inner", [])
        init, cond, inc, body = inner[0], inner[2], inner[3], inner[4]
        scope = set(scope)
        r = self.as_range(init, cond, inc, body)
        if r is not None:
            d, lo, hi, step, ends = r
            los, his = self.expr(lo), self.expr(hi)
            nm = self.declare(d, scope)
            if ends == "iter":
                self.emit(f"for {nm} in X.iterate({los}, {his}):")
            else:
                if ends:
                    his = f"({his}) + 1"
                self.emit(f"for {nm} in X.crange({los}, {his}, {step}):")
            self.loop_inc.append(None)
            self.suite(body, scope)
            self.loop_inc.pop()
            return
        if init and init.get("kind"):
            self.stmt(init, scope) if init["kind"] != "DeclStmt" else [self.var(d, scope) for d in kids(init)]
        self.emit(f"while {self.cond(cond) if cond and cond.get('kind') else 'True'}:")
        inc = inc if inc and inc.get("kind") else None
        self.loop_inc.append(inc)
        self.suite(body, scope)
        self.loop_inc.pop()
        if inc is not None:
            self.ind += 1
            self.effect(inc)
            self.ind -= 1

    def as_range(self, init, cond, inc, body):
        if not (init and init.get("kind") == "DeclStmt" and len(kids(init)) == 1):
            return None
        d = kids(init)[0]
        if d["kind"] != "VarDecl" or d["id"] in self.boxed:
            return None
        ini = [c for c in kids(d)]
        if not ini or not cond or not cond.get("kind") or not inc or not inc.get("kind"):
            return None
        c = strip(cond)
        ch = self.assigned_in(body)
        if d["id"] in ch:
            return None

        def is_var(x):
            x = strip(x)
            return x["kind"] == "DeclRefExpr" and x["referencedDecl"]["id"] == d["id"]
        i = strip(inc)
        step = None
        if i["kind"] == "UnaryOperator" and i.get("opcode") == "++" and is_var(kids(i)[0]):
            step = 1
        elif i["kind"] == "CompoundAssignOperator" and i.get("opcode") == "+=" and is_var(kids(i)[0]):
            v = strip(kids(i)[1])
            if v["kind"] == "IntegerLiteral":
                step = int(v["value"])
        elif i["kind"] == "CXXOperatorCallExpr" and is_var(kids(i)[1]) and strip(kids(i)[0]).get(
                "referencedDecl", {}).get("name") == "operator++":
            step = "iter"
        if step is None:
            return None
        if step == "iter":
            if c["kind"] != "CXXOperatorCallExpr" or strip(kids(c)[0]).get("referencedDecl", {}).get(
                    "name") != "operator!=" or not is_var(kids(c)[1]):
                return None
            hi = kids(c)[2]
            if self.names_in(hi) & ch:
                return None
            return d, ini[0], hi, 1, "iter"
        if c["kind"] != "BinaryOperator" or c.get("opcode") not in ("<", "<=", "!="):
            return None
        lo, hi = kids(c)
        if not is_var(lo) or not is_int_t(qt(d)):
            return None
        if c["opcode"] == "!=" and step != 1:
            return None
        if self.names_in(hi) & ch:
            return None
        if c["opcode"] == "!=":
            return None
        return d, ini[0], hi, step, c["opcode"] == "<="

    def range_for(self, n, scope):
        # children: range, begin, end, cond, inc, loop variable, body
        ch = kids(n)
        decls = [c for c in ch if c["kind"] == "DeclStmt"]
        rng = kids(decls[0])[0]
        var = kids(decls[-1])[0]
        body = ch[-1]
        src = self.expr(kids(rng)[0])
        scope = set(scope)
        # elements only reserved: no effect on contents
        def effects(b):
            b = strip(b)
            if b["kind"] == "CompoundStmt":
                return all(effects(x) for x in kids(b))
            return b["kind"] == "CXXMemberCallExpr" and strip(kids(b)[0]).get("name") == "reserve"
        if effects(body):
            self.emit("pass")
            return
        byref = "&" in qraw(var)
        nm = self.declare(var, scope)
        self.emit(f"for {nm} in X.elements({src}, {byref}):")
        self.loop_inc.append(None)
        self.suite(body, scope)
        self.loop_inc.pop()

    # -- expressions with effect
    def effect(self, n):
        n = strip(n)
        k = n["kind"]
        if k == "BinaryOperator" and n["opcode"] == "=":
            a, b = kids(n)
            self.emit(f"{self.lhs(a)} = {self.expr(b)}")
        elif k == "BinaryOperator" and n["opcode"] == ",":
            for c in kids(n):
                self.effect(c)
        elif k == "CompoundAssignOperator":
            a, b = kids(n)
            op = n["opcode"][:-1]
            rt = n.get("computeResultType", {})
            t = rt.get("desugaredQualType") or rt.get("qualType", "")
            l = self.lhs(a)
            v = self.binop(op, self.conv(self.expr(a), qt(a), t), self.expr(b), t)
            self.emit(f"{l} = {self.conv(v, t, qt(a))}")
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            l = self.lhs(kids(n)[0])
            self.emit(f"{l} = {l} {n['opcode'][0]} 1")
        elif k == "CXXOperatorCallExpr":
            op = strip(kids(n)[0]).get("referencedDecl", {}).get("name", "")
            if op == "operator=":
                self.emit(f"X.assign({self.expr(kids(n)[1])}, {self.expr(kids(n)[2])})")
            elif op in ("operator++", "operator--"):
                self.emit(f"{self.expr(kids(n)[1])}.step({1 if op.endswith('++') else -1})")
            elif op == "operator<<":
                self.emit("pass")          # output
            else:
                self.emit(self.expr(n))
        elif k in ("CallExpr", "CXXMemberCallExpr"):
            self.emit(self.expr(n))
        elif k == "CXXThrowExpr":
            self.emit("raise X.CxxException('throw')")
        elif k == "ConditionalOperator" and "void" in qt(n):
            self.bad(n)
        elif k in ("CStyleCastExpr", "ImplicitCastExpr", "CXXStaticCastExpr") and n.get("castKind") == "ToVoid":
            self.emit("pass")
        else:
            self.bad(n, "as a statement")

    def lhs(self, n):
        n = strip(n)
        k = n["kind"]
        if k == "DeclRefExpr":
            return self.ref(n)
        if k == "UnaryOperator" and n["opcode"] == "*":
            return self.deref(kids(n)[0])
        if k == "ArraySubscriptExpr":
            a, b = kids(n)
            return f"{self.expr(a)}[{self.expr(b)}]"
        if k == "CXXOperatorCallExpr":
            op = strip(kids(n)[0]).get("referencedDecl", {}).get("name", "")
            if op == "operator[]":
                return f"{self.expr(kids(n)[1])}[{self.expr(kids(n)[2])}]"
            if op == "operator*":
                return f"{self.expr(kids(n)[1])}.v"
        if k == "CXXMemberCallExpr":
            m = strip(kids(n)[0])
            if m.get("name") == "at":
                return f"{self.expr(kids(m)[0])}[{self.expr(kids(n)[1])}]"
            if m.get("kind") == "MemberExpr" and len(kids(n)) == 1:        # a method returning a reference
                return f"X.place({self.expr(kids(m)[0])}, {m['name']!r}).v"
        if k == "MemberExpr":
            return f"{self.expr(kids(n)[0])}.{n['name']}"
        self.bad(n, "as assignment target")

    def deref(self, n):
        return f"{self.expr(n)}.v"

    def ref(self, n):
        d = n["referencedDecl"]
        nm = self.names.get(d["id"])
        if nm is None:
            if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return d["name"]
            if d["kind"] == "EnumConstantDecl":
                return f"X.enum({d['name']!r})"
            if d["kind"] == "VarDecl":
                return f"X.global_({d['name']!r})"
            self.bad(n, d.get("name", ""))
        if d["id"] in self.boxed or d["id"] in self.refs:
            return nm + ".v"
        return nm

    def conv(self, s, a, b):
        if is_int_t(a) and is_flt_t(b):
            return f"X.tofloat({s})"
        if is_flt_t(a) and is_int_t(b):
            return f"X.toint({s})"
        return s

    def binop(self, op, a, b, t):
        if op == "/" and is_int_t(t):
            return f"X.idiv({a}, {b})"
        if op == "/":
            return f"X.fdiv({a}, {b})"
        if op == "%":
            return f"X.imod({a}, {b})"
        if op in ("+", "-", "*"):
            return f"({a} {op} {b})"
        raise Unsupported(f"operator {op}")

    def cond(self, n):
        return self.expr(n)

    # -- pure expressions
    def expr(self, n):
        k = n["kind"]
        if k in TRANSPARENT:
            return self.expr(kids(n)[0])
        if k == "CXXDefaultInitExpr":
            self.bad(n)
        if k == "IntegerLiteral":
            return n["value"]
        if k == "FloatingLiteral":
            return f"X.flt({n['value']!r})"
        if k == "CXXBoolLiteralExpr":
            return "True" if n["value"] else "False"
        if k in ("ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr"):
            ck = n.get("castKind")
            s = self.expr(kids(n)[0])
            if ck == "IntegralToFloating":
                return f"X.tofloat({s})"
            if ck == "FloatingToIntegral":
                return f"X.toint({s})"
            if ck == "IntegralToBoolean" or ck == "FloatingToBoolean":
                return f"({s} != 0)"
            if ck in ("LValueToRValue", "NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay", "BuiltinFnToFnPtr", "IntegralCast",
                      "FloatingCast", "UserDefinedConversion", "ConstructorConversion", "DerivedToBase",
                      "UncheckedDerivedToBase", "BitCast"):
                if ck == "IntegralCast" and qt(kids(n)[0]).strip() == "bool":
                    return f"X.bool2int({s})"
                return s
            self.bad(n, str(ck))
        if k == "DeclRefExpr":
            return self.ref(n)
        if k == "BinaryOperator":
            a, b = kids(n)
            op = n["opcode"]
            if op in ("&&", "||") and self.pure:
                return f"X.{'both' if op == '&&' else 'any_of'}({self.expr(a)}, {self.expr(b)})"
            if op in ("&&", "||"):
                return f"({self.expr(a)} {'and' if op == '&&' else 'or'} {self.expr(b)})"
            if op in ("<", ">", "<=", ">=", "==", "!="):
                return f"({self.expr(a)} {op} {self.expr(b)})"
            if op == "=":
                self.bad(n, "assignment inside an expression")
            return self.binop(op, self.expr(a), self.expr(b), qt(n))
        if k == "UnaryOperator":
            op = n["opcode"]
            a = kids(n)[0]
            if op == "-":
                return f"(-{self.expr(a)})"
            if op == "+":
                return self.expr(a)
            if op == "!":
                return f"X.not_({self.expr(a)})"
            if op == "*":
                return self.deref(a)
            if op == "&":
                t = strip(a)
                if t["kind"] == "DeclRefExpr" and t["referencedDecl"]["id"] in self.boxed:
                    return self.names[t["referencedDecl"]["id"]]
                if t["kind"] in ("ArraySubscriptExpr", "CXXOperatorCallExpr"):
                    return f"X.ptr({self.expr(kids(t)[-2])}, {self.expr(kids(t)[-1])})"
            self.bad(n, op)
        if k == "ConditionalOperator":
            a, b, c = kids(n)
            if self.pure:
                return f"X.pick({self.expr(a)}, {self.expr(b)}, {self.expr(c)})"
            return f"({self.expr(b)} if {self.expr(a)} else {self.expr(c)})"
        if k == "ArraySubscriptExpr":
            a, b = kids(n)
            return f"{self.expr(a)}[{self.expr(b)}]"
        if k == "InitListExpr":
            fill = n.get("array_filler")
            return "X.init_list([" + ", ".join(self.expr(c) for c in kids(n)) + f"], {qt(n)!r})"
        if k == "CXXStdInitializerListExpr":
            return self.expr(kids(n)[0])
        if k == "UnaryExprOrTypeTraitExpr":
            if n.get("name") == "sizeof":
                t = (n.get("argType") or {}).get("qualType") or (qt(kids(n)[0]) if kids(n) else "")
                sz = {"double": 8, "float": 4, "int": 4, "unsigned int": 4, "long": 8, "size_t": 8, "unsigned long": 8}
                if t in sz:
                    return str(sz[t])
            self.bad(n)
        if k == "CXXDefaultArgExpr":
            return None
        if k == "CXXThisExpr":
            return "self"
        if k == "StringLiteral":
            return repr(n.get("value", ""))
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            return self.construct(n)
        if k == "CXXScalarValueInitExpr" or k == "ImplicitValueInitExpr":
            return "0" if is_int_t(qt(n)) else "X.flt('0')"
        if k == "MemberExpr":
            return f"{self.expr(kids(n)[0])}.{n['name']}"
        if k == "CXXMemberCallExpr":
            m = kids(n)[0]
            while m["kind"] in TRANSPARENT:
                m = kids(m)[0]
            args = [self.expr(a) for a in kids(n)[1:]]
            if m["name"].startswith("operator ") and not args:      # conversion
                return f"X.convert({self.expr(kids(m)[0])})"
            return f"{self.expr(kids(m)[0])}.{m['name']}({', '.join(a for a in args if a is not None)})"
        if k == "CXXOperatorCallExpr":
            ch = kids(n)
            op = strip(ch[0]).get("referencedDecl", {}).get("name", "")
            if op == "operator[]":
                return f"{self.expr(ch[1])}[{self.expr(ch[2])}]"
            if op == "operator*" and len(ch) == 2:
                return f"{self.expr(ch[1])}.v"
            if op == "operator->":
                return f"{self.expr(ch[1])}.v"
            o = op[len("operator"):]
            if o in ("+", "-", "<", ">", "<=", ">=", "==", "!=") and len(ch) == 3:
                return f"({self.expr(ch[1])} {o} {self.expr(ch[2])})"
            if o == "()":
                return f"{self.expr(ch[1])}({', '.join(self.expr(c) for c in ch[2:])})"
            self.bad(n, op)
        if k == "CallExpr":
            ch = kids(n)
            c = strip(ch[0])
            if c["kind"] != "DeclRefExpr":
                self.bad(n, "indirect call")
            nm = c["referencedDecl"]["name"]
            d = self.unit.own(nm)
            args = []
            for a in ch[1:]:
                if a["kind"] == "CXXDefaultArgExpr":
                    continue
                args.append(self.expr(a))
            if d:
                return f"{nm}({', '.join(args)})"
            t = qt(n)
            return f"X.call_{nm}({', '.join(args)})" if nm not in ("min", "max") else (
                f"X.call_{nm}({', '.join(args)})")
        if k == "LambdaExpr":
            return self.lambda_(n, set(self.names.values()))
        self.bad(n)

    def lambda_(self, n, scope):
        """a function object becomes a local function; where its value is a single expression, without case distinctions"""
        ch = kids(n)
        op = next(c for c in kids(ch[0]) if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()")
        ps = [c for c in kids(op) if c["kind"] == "ParmVarDecl"]
        body = ch[-1]
        if body["kind"] != "CompoundStmt":
            self.bad(n)
        own = {p["id"] for p in ps}

        def inner(m):
            if m.get("kind") == "VarDecl":
                own.add(m["id"])
            for c in kids(m):
                inner(c)
        inner(body)
        if (self.assigned_in(body) - own) & set(self.names):
            self.bad(n, "that changes what it captures")
        byval = [strip(c) for c in ch[1:-1] if c["kind"] != "DeclRefExpr"]
        scope = set(scope)
        names = [self.declare(p, scope) for p in ps]
        if any(p["id"] in self.boxed for p in ps):
            self.bad(n, "taking an address")
        for p in ps:
            if "&" in qraw(p) and "const" not in qraw(p):
                self.bad(n, "with a mutable reference parameter")
        extra = []
        for c in byval:
            if c["kind"] == "CXXConstructExpr":
                c = strip(kids(c)[0])
            if c["kind"] != "DeclRefExpr" or c["referencedDecl"]["id"] in self.boxed | self.refs:
                self.bad(n, "capture")
            v = self.ref(c)
            extra.append(f"{v}={v}" if is_scalar_t(qt(c)) else f"{v}=X.copy({v})")
        self.tmp += 1
        f = f"_lambda{self.tmp}"
        self.emit(f"def {f}({', '.join(names + extra)}):")
        self.ind += 1
        e, was = self.as_value(kids(body)), self.pure
        for p, nm in zip(ps, names):
            if "&" not in qraw(p) and not is_scalar_t(qt(p)):
                self.emit(f"{nm} = X.copy({nm})")
        if e:
            self.pure = True
            self.emit("return " + self.value_of(kids(body), scope))
        else:
            self.pure = False
            before = len(self.lines)
            inc, self.loop_inc = self.loop_inc, []
            self.block(kids(body), scope)
            self.loop_inc = inc
            if len(self.lines) == before:
                self.emit("pass")
        self.pure = was
        self.ind -= 1
        return f

    def as_value(self, stmts):
        """declarations and early returns only"""
        if not stmts:
            return False
        s, rest = stmts[0], stmts[1:]
        if s["kind"] == "ReturnStmt":
            return bool(kids(s)) and not rest
        if s["kind"] == "CompoundStmt" and not rest:
            return self.as_value(kids(s))
        if s["kind"] == "DeclStmt":
            return all(d["kind"] == "VarDecl" and kids(d) for d in kids(s)) and self.as_value(rest)
        if s["kind"] == "IfStmt" and not s.get("hasInit") and not s.get("hasVar"):
            ch = kids(s)
            one = self.as_value([ch[1]] if ch[1]["kind"] != "CompoundStmt" else kids(ch[1]))
            if len(ch) > 2:
                return one and not rest and self.as_value([ch[2]] if ch[2]["kind"] != "CompoundStmt" else kids(ch[2]))
            return one and self.as_value(rest)
        return False

    def value_of(self, stmts, scope):
        s, rest = stmts[0], stmts[1:]
        if s["kind"] == "ReturnStmt":
            return self.expr(kids(s)[0])
        if s["kind"] == "CompoundStmt":
            return self.value_of(kids(s), set(scope))
        if s["kind"] == "DeclStmt":
            for d in kids(s):
                self.var(d, scope)
            return self.value_of(rest, scope)
        ch = kids(s)
        sub = lambda m: self.value_of(kids(m) if m["kind"] == "CompoundStmt" else [m], set(scope))
        return f"X.pick({self.expr(ch[0])}, {sub(ch[1])}, {sub(ch[2]) if len(ch) > 2 else self.value_of(rest, scope)})"

    def construct(self, n):
        t = qt(n).replace("const ", "").strip()
        args = [c for c in kids(n) if c["kind"] != "CXXDefaultArgExpr"]
        ar = [self.expr(a) for a in args]
        base = t.split("<")[0].split("::")[-1].strip()
        if t.startswith("std::vector<") or t.startswith("vector<"):
            el = t[t.index("<") + 1:t.rindex(">")]
            el = el.split(", std::allocator")[0].strip()
            if len(args) == 1 and ("vector<" in qt(args[0]) or strip(args[0])["kind"] == "CallExpr" and "vector" in qt(
                    args[0])):
                return f"X.copy({ar[0]})"
            if args and strip(args[0])["kind"] == "CXXStdInitializerListExpr" or (
                    args and "initializer_list" in qt(args[0])):
                return f"X.vector_of({ar[0]}, {el!r})"
            return f"X.vector({el!r}{''.join(', ' + a for a in ar)})"
        if t.startswith("std::array<"):
            if ar:
                return f"X.copy({ar[0]})"
            return f"X.carray({int(t.rsplit(',', 1)[1].strip(' >UL').strip())})"
        if len(args) == 1 and not is_scalar_t(qt(args[0])) and qt(args[0]).replace("const ", "").replace(
                "&", "").strip() == t:
            return f"X.copy({ar[0]})"
        nm = qraw(n).replace("const ", "").split("<")[0].split("::")[-1].strip()
        if base.startswith("Delaunay_triangulation_") or base == "pair":
            nm = base
        return f"X.new({nm!r}{''.join(', ' + a for a in ar)})"


# ------------------------------------------------------------------ run-time model
class CxxException(Exception):
    pass


def merge(c, a, b):
    """if c then a else b, for scalars and small tuples/lists"""
    if isinstance(a, (list, tuple)):
        return type(a)(merge(c, x, y) for x, y in zip(a, b))
    if hasattr(a, "cmerge") and hasattr(b, "cmerge"):
        return a.cmerge(c, b)
    if isinstance(b, Undef) or isinstance(a, Undef):
        if isinstance(a, Undef) and isinstance(b, Undef):
            return a
        if hasattr(a, "cmerge") or hasattr(b, "cmerge"):
            raise Unsupported("an element that may be uninitialised")
        # an uninitialised element: any value
        v = a if isinstance(b, Undef) else b
        srt = ex(v).sort()
        f = S(ctx().fresh("undef", srt))
        return ite(c, a, f) if isinstance(b, Undef) else ite(c, f, b)
    return ite(c, a, b)


class Undef:
    def __init__(self, name):
        self.name = name

    def _bad(self, *a, **k):
        raise Unsupported(f"uninitialised value {self.name} is used")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __gt__ = __le__ = __ge__ = _bad
    __getitem__ = __bool__ = __int__ = __float__ = __truediv__ = __rtruediv__ = __neg__ = _bad


class Box:
    v = Timed()

    def __init__(self, v):
        self.v = v


def nidx(i):
    return symnp.norm_index(i)


class Vec:
    """std::vector"""
    n, rd, memo = Timed(), Timed(), Timed()

    def __init__(self, n, rd, kind, el=""):
        self.n, self.rd, self.kind, self.el = nidx(n), frozen(rd), kind, el
        self.memo = {}
        self.log = None
        self.reads = None

    def clone(self):
        return Vec(self.n, self.rd, self.kind, self.el)

    def size(self):
        return self.n

    def empty(self):
        return self.n == 0

    def capacity(self):
        c = S(ctx().fresh("capacity", I))
        ctx().assume(c.e >= ex(self.n))
        return c

    def reserve(self, k):
        return None

    def read(self, i):
        k = i if is_num(i) else ex(i).get_id()
        v = self.memo.get(k)
        if v is None:
            if not is_num(i):
                ctx().hold(ex(i))
                if not is_num(self.n):
                    ctx().note(self.n, ex(i))
            v = self.rd(i)
            self.memo[k] = v
        return v

    def check(self, i, what="vector index in range"):
        c = ctx()
        if getattr(c, "mute", False):
            return
        if is_num(i) and is_num(self.n):
            if not 0 <= i < self.n:
                c.need(z3.BoolVal(False), what)
            return
        c.need(z3.And(ex(i) >= 0, ex(i) < ex(self.n)), what)

    def __getitem__(self, i):
        i = nidx(i)
        self.check(i)
        if self.reads is not None:
            self.reads.append(i)
        v = self.read(i)
        if isinstance(v, Vec):
            raise Unsupported("nested vector element by value")
        return v

    at = __getitem__

    def __setitem__(self, i, v):
        i = nidx(i)
        self.check(i)
        self.store(i, v)

    def store(self, i, v):
        if isinstance(v, Undef):
            raise Unsupported("store of an uninitialised value")
        v = freeze(v)
        if self.kind == "f" and not isinstance(v, (tuple, list)):
            v = tofloat(v)
        old = self.rd
        if self.log is not None:
            self.log.append((i, v))

        def rd(j):
            e = symnp.eqc(j, i)
            if e is True:
                return v
            if e is False:
                return old(j)
            return merge(e, v, old(j))
        self.set_rd(rd)

    def set_rd(self, rd):
        memo = {}
        rd = frozen(rd)

        def g(j):
            k = j if is_num(j) else ex(j).get_id()
            if k not in memo:
                if not is_num(j):
                    ctx().hold(ex(j))
                memo[k] = rd(j)
            return memo[k]
        self.rd = g
        self.memo = {}

    def push_back(self, x):
        n = self.n
        if not is_num(n):
            old = self.rd

            def rd(j):
                # an index of the longer vector also names one of the shorter
                if not is_num(j):
                    ctx().note(n, ex(j))
                return old(j)
            self.set_rd(rd)
        self.n = nidx(n + 1)
        if not is_num(self.n):
            ctx().note(self.n, ex(n))
            if not is_num(n):
                ctx().link(n, self.n)
        self.store(n, x)

    emplace_back = push_back

    def resize(self, n, v=None):
        if self.log is not None:
            raise Unsupported("resize inside a summarised loop")
        old, m = self.rd, self.n
        if v is None:
            v = zero_of(self.el, self.kind)
        n = nidx(n)
        if is_num(m) and m == 0:
            self.set_rd(lambda j: v)
        else:
            def rd(j):
                lt = symnp.ltc(j, m)
                if lt is True:
                    return old(j)
                if lt is False:
                    return v
                return merge(lt, old(j), v)
            self.set_rd(rd)
        self.n = n

    def clear(self):
        self.n = 0

    def data(self):
        return Ptr(self, 0)

    def begin(self):
        return It(self, 0)

    def end(self):
        return It(self, self.n)

    def back(self):
        return self[self.n - 1]

    def front(self):
        return self[0]

    def fill(self, v):
        self.set_rd(lambda j: v)


def zero_of(el, kind):
    if kind == "f":
        return 0.0
    if kind == "i":
        return 0
    return Undef("element of " + el)


def freeze(v):
    return tuple(v) if isinstance(v, list) else v


class CArr(list):
    """std::array / C array of fixed length"""

    def __init__(self, *a):
        list.__init__(self, *a)
        logic.CLOCK[0] += 1
        self.born = logic.CLOCK[0]

    def size(self):
        return len(self)

    def fill(self, v):
        for k in range(len(self)):
            self.poke(k, v)

    def peek(self, k):
        v, a = list.__getitem__(self, k), logic.ASOF[0]
        if a is not None and self.born <= a:
            for t, q, w in reversed(self.__dict__.get("undo", ())):
                if t <= a:
                    break
                if q == k:
                    v = w
        return v

    def poke(self, k, v):
        logic.CLOCK[0] += 1
        self.__dict__.setdefault("undo", []).append((logic.CLOCK[0], k, list.__getitem__(self, k)))
        list.__setitem__(self, k, v)

    def at(self, i):
        return self[i]

    def __getitem__(self, i):
        i = nidx(i)
        if is_num(i):
            if not 0 <= i < len(self):
                ctx().need(z3.BoolVal(False), "array index in range")
                raise dead_end("out of range")
            return self.peek(i)
        c = ctx()
        if not getattr(c, "mute", False):
            c.need(z3.And(ex(i) >= 0, ex(i) < len(self)), "array index in range")
        r = self.peek(len(self) - 1)
        for k in range(len(self) - 2, -1, -1):
            r = merge(ex(i) == k, self.peek(k), r)
        return r

    def __setitem__(self, i, v):
        i = nidx(i)
        if is_num(i):
            if not 0 <= i < len(self):
                ctx().need(z3.BoolVal(False), "array index in range")
                raise dead_end("out of range")
            self.poke(i, v)
            return
        for k in range(len(self)):
            self.poke(k, merge(ex(i) == k, v, list.__getitem__(self, k)))

    def begin(self):
        return It(self, 0)

    def end(self):
        return It(self, len(self))

    def data(self):
        return Ptr(self, 0)


class Ptr:
    def __init__(self, v, off):
        self.v_, self.off = v, off

    def __getitem__(self, i):
        return self.v_[self.off + i]


class It:
    """random access iterator"""

    def __init__(self, vec, pos):
        self.vec, self.pos = vec, pos

    @property
    def v(self):
        x = self.vec[self.pos]
        return CArr(x) if isinstance(x, tuple) else x

    @v.setter
    def v(self, x):
        self.vec[self.pos] = x

    def step(self, d):
        self.pos = nidx(self.pos + d)

    def __sub__(self, o):
        if isinstance(o, It):
            return nidx(self.pos - o.pos)
        return It(self.vec, nidx(self.pos - o))

    def __add__(self, k):
        return It(self.vec, nidx(self.pos + k))

    def __ne__(self, o):
        return self.pos != o.pos

    def __eq__(self, o):
        return self.pos == o.pos

    __hash__ = None


class PyArr:
    """py::array_t parameter (c_style | forcecast): elements in C order"""

    def __init__(self, a, kind=None):
        self.a = symnp.asarray(a)
        self.kind = self.a.kind if kind is None else kind
        self.flat = self.a.ravel()
        self.rdf = self.flat.snap()

    def size(self):
        return self.a.size

    def ndim(self):
        return self.a.ndim

    def shape(self, k=None):
        s = CArr(self.a.shape)
        return s if k is None else s[k]

    def data(self):
        return Ptr(self, 0)

    @property
    def n(self):
        return self.a.size


def tofloat(x):
    if isinstance(x, Undef):
        return x
    if isinstance(x, S):
        return S(real(x)) if x.e.sort() == I else x
    if isinstance(x, bool):
        return float(x)
    return x if isinstance(x, Fraction) else float(x)


def _int_expr(e):
    """integer term equal to a real term, when it is one syntactically"""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return e.children()[0]
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB):
            cs = [_int_expr(c) for c in e.children()]
            if any(c is None for c in cs):
                return None
            r = cs[0]
            for c in cs[1:]:
                r = r + c if k == z3.Z3_OP_ADD else r * c if k == z3.Z3_OP_MUL else r - c
            return r
        if k == z3.Z3_OP_UMINUS:
            c = _int_expr(e.children()[0])
            return None if c is None else -c
        if k == z3.Z3_OP_ITE:
            a, b = _int_expr(e.children()[1]), _int_expr(e.children()[2])
            return None if a is None or b is None else z3.If(e.children()[0], a, b)
    return None


def toint(x):
    if isinstance(x, S):
        if x.e.sort() == I:
            return x
        e = z3.simplify(x.e)
        i = _int_expr(x.e)
        if i is None:
            i = _int_expr(e)
        if i is not None:
            return S(z3.simplify(i, som=True))
        return S(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))
    return int(x)


def dead_end(why):
    # during a muted second evaluation nothing was recorded: the path must not vanish silently
    return Unsupported(why) if getattr(ctx(), "mute", False) else PathEnd(why)


def idiv(a, b):
    """C++ integer division"""
    if is_num(a) and is_num(b):
        if b == 0:
            ctx().need(z3.BoolVal(False), "division by zero")
            raise dead_end("division by zero")
        q = abs(int(a)) // abs(int(b))
        return q if (a >= 0) == (b >= 0) else -q
    c = ctx()
    if is_num(b) and b > 0:
        q = symnp.divide_linear(z3.simplify(ex(a), som=True), b)
        if q is not None:
            return nidx(S(q))
        if c.implied(ex(a) >= 0, rounds=0):
            return S(ex(a) / int(b))
        return S(z3.If(ex(a) >= 0, ex(a) / int(b), -((-ex(a)) / int(b))))
    q = symnp.divide_product(z3.simplify(ex(a), som=True), z3.simplify(ex(b), som=True)) if not is_num(b) else None
    if q is not None:
        return nidx(S(q))
    A, Bq = ex(a), ex(b)
    if c.implied(z3.And(A >= 0, Bq > 0)):
        f = S(c.fresh("quo", I))
        c.fact(z3.Implies(z3.And(A >= 0, Bq > 0), z3.And(f.e >= 0, f.e * Bq <= A, A < (f.e + 1) * Bq)))
        return f
    raise Unsupported("integer division of values of unknown sign")


def imod(a, b):
    if is_num(a) and is_num(b):
        return int(a) - int(b) * idiv(a, b)
    return a - b * idiv(a, b)


def fdiv(a, b):
    if is_num(a) and is_num(b):
        from .logic import frac
        return frac(a) / frac(b)
    return a / b


def as_vec_reader(p):
    if isinstance(p.v_, PyArr):
        return p.v_.rdf, p.v_.n
    if isinstance(p.v_, Vec):
        return p.v_.rd, p.v_.n
    if isinstance(p.v_, CArr):
        v = p.v_
        return (lambda j: v[j]), len(v)
    raise Unsupported("pointer to unknown storage")


SIZES = {"f": 8, "i": 4}


class Lib:
    """run-time support and contracts of the library functions"""
    Box = Box
    CxxException = CxxException
    tofloat = staticmethod(tofloat)
    toint = staticmethod(toint)
    idiv = staticmethod(idiv)
    imod = staticmethod(imod)
    fdiv = staticmethod(fdiv)
    It = It

    def __init__(self):
        self.cgal = None

    @staticmethod
    def flt(s):
        return Fraction(s) if Fraction(s).denominator != 1 else float(s)

    @staticmethod
    def undef(name):
        return Undef(name)

    @staticmethod
    def not_(x):
        if isinstance(x, S):
            return S(z3.Not(logic.boolx(x)))
        return not x

    @staticmethod
    def bool2int(x):
        if isinstance(x, S):
            return S(z3.If(logic.boolx(x), z3.IntVal(1), z3.IntVal(0)))
        return int(x)

    @staticmethod
    def global_(name):
        raise Unsupported(f"global variable {name}")

    @staticmethod
    def enum(name):
        return name

    @staticmethod
    def carray(n):
        return CArr([Undef("array element")] * n)

    @staticmethod
    def init_list(xs, t):
        if "array<" in t and len(xs) == 1 and isinstance(xs[0], CArr):
            return CArr(list(xs[0]))     # the braces of the array inside std::array
        return CArr(xs)

    @staticmethod
    def ptr(a, i):
        return Ptr(a, i)

    @staticmethod
    def copy(x):
        if isinstance(x, Vec):
            return x.clone()
        if isinstance(x, CArr):
            return CArr([Lib.copy(y) if isinstance(y, (CArr, list)) else y for y in x])
        if isinstance(x, It):
            return It(x.vec, x.pos)
        if hasattr(x, "ccopy"):
            return x.ccopy()
        return x

    @staticmethod
    def assign(dst, src):
        if isinstance(dst, Vec) and isinstance(src, Vec):
            if dst.log is not None:
                raise Unsupported("whole-vector assignment inside a summarised loop")
            dst.n = src.n
            dst.set_rd(src.rd)
            return
        if isinstance(dst, CArr):
            for k in range(len(dst)):
                dst.poke(k, src[k])
            return
        if isinstance(dst, It) and isinstance(src, It):
            dst.vec, dst.pos = src.vec, src.pos
            return
        raise Unsupported("assignment of an object")

    @staticmethod
    def crange(lo, hi, step):
        if is_num(lo) and is_num(hi):
            return range(int(lo), int(hi), step)
        if step == 1:
            return pyload.SymRange(lo, hi)
        q, r = symnp.split_linear(nidx(hi - lo), step)
        n = idiv(hi - lo + (step - 1), step) if q is None else q + (1 if r else 0)
        n = symnp.clamp0(n)
        return symnp.SymList(n, lambda k: nidx(lo + step * k))

    @staticmethod
    def iterate(a, b):
        n = b.pos - a.pos
        if is_num(n):
            return [It(a.vec, a.pos + k) for k in range(int(n))]
        return symnp.SymList(n, lambda k: It(a.vec, nidx(a.pos + k)))

    @staticmethod
    def convert(x):
        if hasattr(x, "cconvert"):
            return x.cconvert()
        if isinstance(x, It) and hasattr(x.vec, "handles"):
            return x.v
        raise Unsupported("conversion of an object")

    @staticmethod
    def place(x, name):
        if isinstance(x, It):
            x = x.v
        f = getattr(x, "place_" + name, None)
        if f is None:
            raise Unsupported(f"assignment to what {name}() returns")
        return f()

    @staticmethod
    def elements(v, byref):
        if hasattr(v, "handles"):
            return v.handles()
        if isinstance(v, Vec) and not byref:
            return symnp.SymList(v.n, lambda k: v[k])
        if isinstance(v, CArr):
            return list(v)
        raise Unsupported("range-for by reference")

    @staticmethod
    def vector(el, *args):
        kind = "f" if is_flt_t(el) else "i" if is_int_t(el) else "o"
        if not args:
            return Vec(0, lambda j: zero_of(el, kind), kind, el)
        if isinstance(args[0], It):
            a, b = args
            off, src = a.pos, a.vec.clone()
            return Vec(b.pos - a.pos, lambda j: src.read(nidx(j + off)), kind, el)
        n = args[0]
        v = args[1] if len(args) > 1 else zero_of(el, kind)
        if len(args) == 1 and kind == "o" and "vector" in el:
            return Nested(n, el)
        ctx().need(ex(n) >= 0, "vector size is not negative") if not is_num(n) else None
        return Vec(n, lambda j: v, kind, el)

    @staticmethod
    def vector_of(xs, el):
        kind = "f" if is_flt_t(el) else "i" if is_int_t(el) else "o"
        xs = list(xs)
        v = Vec(0, lambda j: zero_of(el, kind), kind, el)
        for x in xs:
            v.push_back(x)
        return v

    # ---- std
    @staticmethod
    def call_min(a, b):
        return smin(a, b)

    @staticmethod
    def call_max(a, b):
        return smax(a, b)

    @staticmethod
    def call_sqrt(x):
        return ssqrt(x)

    @staticmethod
    def call_acos(x):
        return logic.sacos(x)

    @staticmethod
    def call_fabs(x):
        return symnp.sabs(x)

    call_abs = call_fabs

    @staticmethod
    def call_floor(x):
        if isinstance(x, S):
            if x.e.sort() == I:
                return S(z3.ToReal(x.e))
            i = _int_expr(x.e)
            return S(z3.ToReal(i)) if i is not None else S(z3.ToReal(z3.ToInt(x.e)))
        import math
        return float(math.floor(x))

    @staticmethod
    def call_ceil(x):
        if isinstance(x, S):
            if x.e.sort() == I:
                return S(z3.ToReal(x.e))
            return S(-z3.ToReal(z3.ToInt(-x.e)))
        import math
        return float(math.ceil(x))

    @staticmethod
    def call_pow(x, n):
        return logic.spow(x, n)

    @staticmethod
    def call_move(x):
        return x

    @staticmethod
    def call_forward(x):
        return x

    @staticmethod
    def call_make_pair(a, b):
        return Pair(a, b)

    @staticmethod
    def call_begin(x):
        return x.begin()

    @staticmethod
    def call_end(x):
        return x.end()

    @staticmethod
    def call_distance(a, b):
        return b - a

    @staticmethod
    def call_swap(a, b):
        raise Unsupported("swap")

    @staticmethod
    def extremum(a, b, is_min):
        v = a.vec
        if isinstance(v, CArr) and is_num(a.pos) and is_num(b.pos):
            # position of the first smallest / largest element
            best, pos = v[a.pos], a.pos
            for k in range(a.pos + 1, b.pos):
                x = v[k]
                c = (x < best) if is_min else (best < x)
                best, pos = merge(ex(c) if isinstance(c, S) else c, x, best) if not isinstance(c, bool) else (
                    x if c else best), None
            return Found(best)
        if isinstance(v, Vec):
            c = ctx()
            n = nidx(b.pos - a.pos)
            k = S(c.fresh("argext", I))
            c.need(ex(n) > 0, "extremum of a non-empty range")
            c.assume(z3.And(k.e >= ex(a.pos), k.e < ex(b.pos)))
            c.note(v.n, k.e)
            rd = v.rd
            best = v.read(k)
            lo, hi = a.pos, b.pos
            c.assume_all([v.n], lambda j: z3.Implies(
                z3.And(ex(j) >= ex(lo), ex(j) < ex(hi)), ex(best) <= ex(rd(j)) if is_min else ex(best) >= ex(rd(j))))
            return Found(best, k)
        raise Unsupported("extremum")

    @staticmethod
    def call_min_element(a, b):
        return Lib.extremum(a, b, True)

    @staticmethod
    def call_max_element(a, b):
        return Lib.extremum(a, b, False)

    @staticmethod
    def call_memcpy(dst, src, nbytes):
        """whole elements from one buffer to another"""
        d, s = dst.v_, src.v_
        if not isinstance(d, Vec) or not (is_num(dst.off) and dst.off == 0 and is_num(src.off) and src.off == 0):
            raise Unsupported("memcpy target")
        rd, n = as_vec_reader(src)
        w = SIZES.get(d.kind)
        sk = s.kind
        if w is None or sk != d.kind:
            raise Unsupported("memcpy of different element types")
        k = idiv(nbytes, w) if not is_num(nbytes) else nbytes // w
        c = ctx()
        if not (z3.is_true(z3.simplify(ex(k) * w == ex(nbytes)))):
            c.need(ex(k) * w == ex(nbytes), "memcpy copies whole elements")
        for what, m in (("destination", d.n), ("source", n)):
            if not (z3.is_true(z3.simplify(ex(k) <= ex(m)))):
                c.need(ex(k) <= ex(m), f"memcpy stays inside the {what}")
        old = d.rd

        def r(j):
            lt = symnp.ltc(j, k)
            if lt is True or symnp.dims_equal(k, d.n) is True:
                return rd(j)
            if lt is False:
                return old(j)
            return merge(lt, rd(j), old(j))
        d.set_rd(r)
        return dst

    @staticmethod
    def both(a, b):
        return S(z3.And(logic.boolx(a), logic.boolx(b)))

    @staticmethod
    def any_of(a, b):
        return S(z3.Or(logic.boolx(a), logic.boolx(b)))

    @staticmethod
    def pick(c, a, b):
        return merge(S(logic.boolx(c)), a, b)

    @staticmethod
    def call_sort(a, b, comp=None):
        v = a.vec
        if not isinstance(v, Vec) or not (is_num(a.pos) and a.pos == 0) or symnp.dims_equal(b.pos, v.n) is not True:
            raise Unsupported("sort of a part of a vector")
        if v.log is not None:
            raise Unsupported("sort inside a summarised loop")
        c = ctx()
        n, old = v.n, v.rd
        lex = True
        if comp is not None:
            less = lambda x, y: logic.boolx(comp(x, y))
            with c.trial():
                # elements at three arbitrary positions
                k = [c.fresh("so", I) for _ in range(3)]
                x, y, z = [old(S(t)) for t in k]
                inside = z3.And(*[z3.And(t >= 0, t < ex(n)) for t in k])
                lex = c.implied(z3.Implies(inside, less(x, y) == z3.Not(le(y, x))))
                ok = lex or c.implied(z3.Implies(inside, z3.And(
                    z3.Not(less(x, x)), z3.Implies(less(x, y), z3.Not(less(y, x))),
                    z3.Implies(z3.And(less(x, y), less(y, z)), less(x, z)),
                    z3.Implies(z3.And(z3.Not(less(x, y)), z3.Not(less(y, x)), z3.Not(less(y, z)), z3.Not(less(z, y))),
                               z3.And(z3.Not(less(x, z)), z3.Not(less(z, x)))))), timeout=10000)
            if not ok:
                raise Unsupported("the order given to sort is not known to be a strict weak order")
        P = c.fresh_fn("sortp", I, I)       # position -> old position
        Q = c.fresh_fn("sortq", I, I)       # old position -> position
        c.note(n, z3.IntVal(0))

        def newrd(j):
            c2 = ctx()
            t = P(ex(j))
            if c2.once(("sortp", t)):
                c2.fact(z3.Implies(z3.And(ex(j) >= 0, ex(j) < ex(n)), z3.And(t >= 0, t < ex(n), Q(t) == ex(j))))
                c2.note(n, ex(j))
                c2.note(n, t)
            return old(S(t))

        def place(q):
            ctx().note(n, Q(ex(q)))
            return z3.And(Q(ex(q)) >= 0, Q(ex(q)) < ex(n), P(Q(ex(q))) == ex(q))
        c.assume_all([n], place)
        order = le if lex else (lambda x, y: z3.Not(less(y, x)))
        c.assume_all([n, n], lambda p, q: z3.Implies(ex(p) < ex(q), order(newrd(p), newrd(q))),
                     skip=lambda p, q: ctx().level > 1)
        v.set_rd(newrd)
        v.sorted_ = v.rd if lex else None
        return None

    @staticmethod
    def call_unique(a, b):
        v = a.vec
        if not isinstance(v, Vec) or not (is_num(a.pos) and a.pos == 0) or symnp.dims_equal(b.pos, v.n) is not True:
            raise Unsupported("unique of a part of a vector")
        c = ctx()
        n, old = v.n, v.rd
        L = S(c.fresh("nuniq", I))
        c.assume(z3.And(L.e >= 0, L.e <= ex(n), z3.Implies(ex(n) > 0, L.e > 0)))
        s = c.fresh_fn("usrc", I, I)        # kept position -> old position, increasing
        r = c.fresh_fn("urep", I, I)        # old position -> kept position of its group
        c.assume_all([L], lambda k: z3.And(s(ex(k)) >= 0, s(ex(k)) < ex(n), r(s(ex(k))) == ex(k)))

        def group(q):
            ctx().note(L, r(ex(q)))
            return z3.And(r(ex(q)) >= 0, r(ex(q)) < L.e, s(r(ex(q))) <= ex(q), eqv(old(S(s(r(ex(q))))), old(q)))
        c.assume_all([n], group)
        # neighbouring kept elements differ; kept elements are in order
        if getattr(v, "sorted_", None) is old:
            # in a sorted range equal elements are neighbours: what is kept increases strictly
            c.assume_all([L, L], lambda p, q: z3.Implies(ex(p) < ex(q), z3.Not(le(old(S(s(ex(q)))), old(S(s(ex(p))))))),
                         skip=lambda p, q: ctx().level > 1)
        else:
            c.assume_all([L], lambda k: z3.Implies(ex(k) + 1 < L.e, z3.Not(eqv(old(S(s(ex(k)))), old(S(s(ex(k) + 1)))))))
            c.assume_all([L, L], lambda p, q: z3.Implies(ex(p) < ex(q), s(ex(p)) < s(ex(q))))

        def newrd(j):
            t = S(s(ex(j)))
            ctx().note(n, t.e)
            ctx().note(L, ex(j))
            return old(t)
        v.set_rd(newrd)
        v.unique_ = (L, s, r, old)
        return It(v, L)

    # ---- pybind11
    def new(self, name, *args):
        if name == "buffer_info":
            return BufferInfo(*args)
        if name == "array":
            return make_array(args[0])
        if name == "runtime_error" or name == "invalid_argument":
            return CxxException(name)
        if name in ("shape_container", "any_container", "strides_container"):
            return args[0]
        if name == "basic_string":
            return args[0] if args else ""
        if name == "pair":
            return Pair(*args) if len(args) == 2 else args[0]
        if self.cgal is not None and hasattr(self.cgal, name):
            return getattr(self.cgal, name)(*args)
        if len(args) == 1 and hasattr(args[0], "ccopy_as"):
            return args[0].ccopy_as(name)
        if name in ("any_container<ssize_t>",):
            return args[0]
        raise Unsupported(f"object of type {name}")

    @staticmethod
    def call_format():
        return "fmt"

    def __getattr__(self, k):
        if k.startswith("call_"):
            f = k[5:]
            if self.cgal is not None and hasattr(self.cgal, f):
                return getattr(self.cgal, f)
            raise Unsupported(f"library function {f}")
        raise AttributeError(k)


class Pair:
    def __init__(self, a, b):
        self.first, self.second = a, b

    def cmerge(self, c, o):
        return Pair(merge(c, self.first, o.first), merge(c, self.second, o.second))


class Found:
    def __init__(self, v, pos=None):
        self.v = v
        self.pos = pos


class BufferInfo:
    def __init__(self, ptr, itemsize, fmt, ndim, shape, strides):
        self.ptr, self.itemsize, self.ndim, self.shape, self.strides = ptr, itemsize, ndim, shape, strides


def vals(v):
    if isinstance(v, Vec):
        if not is_num(v.n):
            raise Unsupported("shape of symbolic rank")
        return [v.rd(k) for k in range(v.n)]
    return list(v)


def make_array(b):
    if not isinstance(b, BufferInfo):
        raise Unsupported("py::array of something else")
    vec = b.ptr.v_
    if not isinstance(vec, Vec):
        raise Unsupported("py::array of something else")
    c = ctx()
    shape = [nidx(x) for x in vals(b.shape)]
    strides = [nidx(x) for x in vals(b.strides)]
    w = SIZES[vec.kind]
    if not (is_num(b.itemsize) and b.itemsize == w):
        raise Unsupported("item size of the buffer")
    if len(shape) != b.ndim or len(strides) != b.ndim:
        c.need(z3.BoolVal(False), "buffer rank matches its shape and strides")
    # row-major strides (irrelevant along axes of length one)
    st = w
    for k in range(len(shape) - 1, -1, -1):
        if not (is_num(shape[k]) and shape[k] == 1):
            c.need(ex(strides[k]) == ex(st), "buffer strides are row-major")
        st = st * shape[k]
    tot = symnp.prod(shape)
    if symnp.dims_equal(tot, vec.n) is not True:
        c.need(ex(tot) <= ex(vec.n), "buffer shape fits the data")
        for d in shape:
            if not is_num(d):
                c.need(ex(d) >= 0, "buffer shape is not negative")
    rd = vec.rd
    flat = symnp.SymArray((tot,), lambda j: rd(j), vec.kind)
    return flat.reshape(tuple(shape)) if len(shape) != 1 else flat


def le(a, b):
    """lexicographic <= on scalars or tuples"""
    if isinstance(a, (tuple, list)):
        r = z3.BoolVal(True)
        for x, y in reversed(list(zip(a, b))):
            r = z3.Or(ex(x) < ex(y), z3.And(ex(x) == ex(y), r))
        return r
    return ex(a) <= ex(b)


def eqv(a, b):
    if isinstance(a, (tuple, list)):
        return z3.And([ex(x) == ex(y) for x, y in zip(a, b)])
    return ex(a) == ex(b)


class Nested:
    """std::vector<std::vector<T>>: a length and a content per row"""

    def __init__(self, n, el, ln=None, rd=None):
        self.n, self.el = n, el
        self.kind = "f" if "double" in el else "i"
        self.ln = ln or (lambda v: 0)
        self.rd = rd or (lambda v, k: 0.0 if self.kind == "f" else 0)

    def size(self):
        return self.n

    def empty(self):
        return S(ex(self.n) == 0)

    def reserve(self, n):
        return None

    def capacity(self):
        c = ctx()
        m = S(c.fresh("capacity", I))
        c.assume(m.e >= ex(self.n))
        return m

    def resize(self, n):
        old, m = self.ln, self.n
        self.ln = lambda v: merge(ex(v) < ex(m), old(v), 0)
        self.n = nidx(n)

    def ccopy(self):
        return Nested(self.n, self.el, self.ln, self.rd)

    def __getitem__(self, v):
        v = nidx(v)
        c = ctx()
        if not getattr(c, "mute", False):
            c.need(z3.And(ex(v) >= 0, ex(v) < ex(self.n)), "vector index in range")
        return NestedRow(self, v)

    at = __getitem__


class NestedRow:
    def __init__(self, m, v):
        self.m, self.v = m, v

    def size(self):
        return self.m.ln(self.v)

    def empty(self):
        return S(ex(self.size()) == 0)

    def reserve(self, n):
        return None

    def push_back(self, x):
        m, w = self.m, self.v
        ln, rd = m.ln, m.rd
        end = ln(w)
        m.ln = lambda v: merge(ex(v) == ex(w), end + 1, ln(v))
        m.rd = lambda v, k: merge(z3.And(ex(v) == ex(w), ex(k) == ex(end)), x, rd(v, k))

    emplace_back = push_back

    def __getitem__(self, k):
        k = nidx(k)
        c = ctx()
        if not getattr(c, "mute", False):
            c.need(z3.And(ex(k) >= 0, ex(k) < ex(self.size())), "vector index in range")
        return self.m.rd(self.v, k)

    at = __getitem__


# ------------------------------------------------------------------ loops over vectors
def auto_store(world, ident, n, item, body, get, set_, env0):
    """summary of a loop whose iterations write to distinct places:

    each iteration stores at indices affine in the iteration number (or appends a fixed
    number of elements); scalars advance by a constant; nothing reads what an earlier
    iteration wrote."""
    c = ctx()
    mut = set(ident[4])
    vec_names = {k: v for k, v in env0.items() if isinstance(v, Vec)}
    objs = {}
    for v in env0.values():
        if hasattr(v, "cxx_vecs"):
            objs[id(v)] = v
    fields = [(o, a) for o in objs.values() for a in o.cxx_vecs]
    for o, a in fields:
        vec_names[(id(o), a)] = getattr(o, a)
    if any(v.log is not None for v in vec_names.values()):
        raise Unsupported("nested loops of symbolic length need an invariant")
    ids = {}
    for v in vec_names.values():
        ids.setdefault(id(v), v)
    if any(isinstance(v, Nested) for v in env0.values()):
        raise Unsupported("nested vectors in a summarised loop")
    entry = {i: v.clone() for i, v in ids.items()}
    lists = {k: v for k, v in env0.items() if isinstance(v, CArr)}
    scal = {k: v for k, v in env0.items() if k in mut and (is_num(v) or isinstance(v, S))}
    boxes = {k: v for k, v in env0.items() if isinstance(v, Box)}
    others = {k for k in mut if k in env0 and k not in scal and k not in vec_names and k not in lists and
              k not in boxes and not isinstance(env0[k], Undef) and not callable(env0[k]) and id(env0[k]) not in objs}

    def run(i, scalars, sizes, mute):
        clones = {}
        for q, v in entry.items():
            w = v.clone()
            w.log, w.reads = [], []
            if q in sizes:
                w.n = sizes[q]
            clones[q] = w
        before = get()
        st = {**env0, **{k: clones[id(v)] for k, v in vec_names.items() if isinstance(k, str)}}
        held = [(o, a, getattr(o, a)) for o, a in fields]
        for o, a in fields:
            setattr(o, a, clones[id(vec_names[id(o), a])])
        st.update(scalars)
        for k, v in lists.items():
            st[k] = CArr([Undef("array element")] * len(v)) if k in mut or k in lists and k in mut else CArr(list(v))
        for k, v in boxes.items():
            st[k] = Box(Undef(k))
        for k in others:
            st[k] = loops.Poison(k)
        set_(st)
        m0 = getattr(c, "mute", False)
        c.mute = mute or m0
        try:
            r = body(item(i))
            out = get()
        finally:
            c.mute = m0
            set_(before)
            for o, a, v in held:
                setattr(o, a, v)
        if r is not None:
            raise Unsupported("loop leaves early: needs an invariant")
        for w in clones.values():
            w.final_n = w.n
        return out, clones

    xi = S(c.fresh("iter", I))
    npc = len(c.pc)
    tr = len(c.trace)
    c.assume(z3.And(xi.e >= 0, xi.e < ex(n)))
    c.note(n, xi.e)
    # first probe: which scalars and sizes advance
    s0 = {k: S(c.fresh("sc_" + k, ex(v).sort() if isinstance(v, S) else (R if isinstance(v, (float, Fraction)) else I)))
          for k, v in scal.items()}
    out, cl = run(xi, s0, {}, True)
    if len(c.trace) != tr:
        raise Unsupported("branch inside a loop of symbolic length: needs an invariant")
    delta, dead = {}, set()
    for k in scal:
        v = out.get(k)
        if isinstance(v, Undef):
            dead.add(k)
            continue
        d = z3.simplify(ex(v) - s0[k].e) if is_num(v) or isinstance(v, S) else None
        if d is not None and (z3.is_int_value(d) or z3.is_rational_value(d)):
            delta[k] = d.as_long() if z3.is_int_value(d) else Fraction(d.numerator_as_long(), d.denominator_as_long())
        else:
            dead.add(k)
    ndelta = {}
    for q, w in cl.items():
        d = z3.simplify(ex(w.n) - ex(entry[q].n))
        if not z3.is_int_value(d):
            raise Unsupported("vector grows irregularly in a loop")
        if d.as_long():
            ndelta[q] = d.as_long()

    def state(i):
        sc = {}
        for k, v in scal.items():
            if k in dead:
                sc[k] = Undef(k)
            elif delta[k] == 0:
                sc[k] = v
            else:
                sc[k] = v + delta[k] * i
        return sc, {q: nidx(entry[q].n + d * i) for q, d in ndelta.items()}
    sc, sz = state(xi)
    out, cl = run(xi, sc, sz, False)
    if len(c.trace) != tr:
        raise Unsupported("branch inside a loop of symbolic length: needs an invariant")
    del c.pc[npc:]
    pats = {}
    for q, w in cl.items():
        if not w.log:
            continue
        ps = {}
        for j, v in w.log:
            e = z3.simplify(ex(j), som=True)
            a = z3.simplify(z3.substitute(e, (xi.e, xi.e + 1)) - e, som=True)
            k = z3.simplify(z3.substitute(e, (xi.e, z3.IntVal(0))), som=True)
            if not z3.is_int_value(a) or a.as_long() <= 0:
                raise Unsupported("store at an irregular index in a loop: needs an invariant")
            ps.setdefault((a.as_long(), k.get_id()), (a.as_long(), k))
        sts = {a for a, _ in ps.values()}
        if len(sts) > 1:
            raise Unsupported("stores with different strides")
        st = sts.pop()
        kk = [k for _, k in ps.values()]
        for x in range(len(kk)):
            for y in range(x):
                d = z3.simplify(kk[x] - kk[y], som=True)
                if not z3.is_int_value(d) or d.as_long() % st == 0:
                    raise Unsupported("stores of different iterations may overlap")
        written = []
        for j in w.reads:
            if not any(z3.is_true(z3.simplify(ex(j) == ex(t))) for t, _ in w.log):
                raise Unsupported("loop reads what an earlier iteration may have written: needs an invariant")
        pats[q] = (st, kk)
    memo = {}

    def at(i):
        i = nidx(i)
        k = i if is_num(i) else ex(i).get_id()
        if k not in memo:
            if not is_num(i):
                c.hold(ex(i))
                c.note(n, ex(i))
            sc, sz = state(i)
            memo[k] = run(i, sc, sz, True)[1]
        return memo[k]
    for q, (st, kk) in pats.items():
        v = ids[q]
        old = entry[q].rd
        appended = is_num(entry[q].n) and entry[q].n == 0 and ndelta.get(q) == st == len(kk)

        def rd(j, q=q, st=st, kk=kk, old=old, appended=appended):
            res = None
            hits = []
            for k in kk:
                d = nidx(S(ex(j) - k)) if not (is_num(j) and z3.is_int_value(k)) else j - k.as_long()
                if st == 1:
                    i, cond = d, True
                elif is_num(d):
                    if d % st:
                        continue
                    i, cond = d // st, True
                else:
                    qq, rr = symnp.split_linear(d, st)
                    if qq is not None:
                        if rr != 0:
                            continue
                        i, cond = qq, True
                    else:
                        i, cond = nidx(S(ex(d) / st)), z3.simplify(ex(d) % st == 0)
                rng = z3.And(ex(i) >= 0, ex(i) < ex(n))
                cd = rng if cond is True else z3.And(cond, rng)
                cd = z3.simplify(cd)
                if z3.is_false(cd):
                    continue
                hits.append((cd, i, cond))
            val = old(j)
            for cd, i, cond in hits:
                log = at(i)[q].log
                got = None
                for t, x in reversed(log):
                    same = z3.simplify(ex(t) == ex(j))
                    if z3.is_true(same):
                        got = x
                        break
                    if not z3.is_false(same) and cond is not True:
                        # (j-k) div st * st + k == j under the divisibility condition
                        s = z3.simplify(z3.substitute(ex(t), (ex(i), S(xi.e).e)), som=True)
                        got = x if got is None and same_slot(ex(t), ex(i), j, st, kk, hits, cd) else got
                        if got is not None:
                            break
                if got is None:
                    raise Unsupported("cannot locate the store of a summarised loop")
                if isinstance(val, Undef) and appended:
                    val = got       # every element below the length was appended by the loop
                    continue
                val = got if z3.is_true(cd) else merge(cd, got, val)
            return val
        v.set_rd(rd)
    for q, d in ndelta.items():
        ids[q].n = nidx(entry[q].n + d * n)
    st = {}
    for k in scal:
        st[k] = loops.Poison(k) if k in dead else (scal[k] + delta[k] * n if delta[k] else scal[k])
    for k in others:
        st[k] = loops.Poison(k)
    for k in lists:
        if k in mut:
            st[k] = loops.Poison(k)
    set_(st)
    return None


def same_slot(t, i, j, st, kk, hits, cd):
    """t is the store index of iteration i; equal to j under cd?"""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(cd)
    s.add(t != ex(j))
    return s.check() == z3.unsat


# ------------------------------------------------------------------ units
class Unit:
    """one C++ source file of /repo; functions are transcribed on demand"""

    def __init__(self, rel, stubs=None, loops=None, cgal=None):
        self.rel = rel
        self.path = os.path.join(REPO, "SeismicMesh", rel)
        if not os.path.exists(self.path):
            raise Unsupported(f"{rel} not found")
        self.stubs = stubs or {}
        self.loops = loops
        self.auto = auto_store
        self.src = open(self.path).read()
        self.lib = Lib()
        self.lib.cgal = cgal
        self.env = {"X": self.lib, "__builtins__": self.builtins()}
        self.text = {}
        self.sig = {}

    def builtins(self):
        import builtins as B
        d = dict(vars(B))
        d["_vc_for"] = lambda *a: loops.vc_for(self, *a)
        d["_vc_while"] = lambda *a: loops.vc_while(self, *a)
        d["_vc_comp"] = pyload.comp
        d["_vc_unpacked"] = pyload.unpacked
        d["_vc_nested"] = lambda k, f: f
        return d

    def own(self, name):
        """is the function defined in this file?  (transcribes it)"""
        if name in self.env or name in self.stubs:
            if name not in self.env:
                self.env[name] = self.stubs[name]
            return True
        import re
        if not re.search(r"\b" + re.escape(name) + r"\s*\(", self.src):
            return False
        if name in ("min", "max", "sqrt", "acos", "floor", "ceil", "memcpy", "sort", "unique", "move", "make_pair",
                    "min_element", "max_element", "begin", "end", "fabs", "abs", "pow", "format"):
            if not re.search(r"^\s*[\w:<>,\s\*&]+\s" + re.escape(name) + r"\s*\([^;{]*\)\s*(const)?\s*\{", self.src,
                             re.M):
                return False
        if not re.search(r"[\w>&\*]\s+[&\*]?" + re.escape(name) + r"\s*\([^;{}]*\)\s*(const)?\s*\{", self.src):
            return False
        self.load(name)
        return True

    def bound(self, name):
        """the function bound to a Python name"""
        n = bound(self.path, name)
        if n["kind"] == "DeclRefExpr":
            return self.fn(n["referencedDecl"]["name"])
        ch = kids(n)
        op = next(c for c in kids(ch[0]) if c["kind"] == "CXXMethodDecl" and c.get("name") == "operator()")
        if ch[1:-1]:
            raise Unsupported("a bound function object with captures")
        nm = "bound_" + name
        if nm not in self.env:
            self.load(nm, {**op, "name": nm, "inner": [c for c in kids(op) if c["kind"] == "ParmVarDecl"] + [ch[-1]]})
        return self.fn(nm)

    def load(self, name, node=None):
        if name in self.env:
            return
        self.env[name] = None       # recursion guard
        node = node or find_fn(self.path, name)
        tr = Trans(node, self)
        text = tr.run()
        self.text[name] = text
        self.sig[name] = [(p.get("name"), qt(p), qraw(p)) for p in tr.params]
        tree = pyload.Tr(self.rel).visit(ast.parse(text))
        ast.fix_missing_locations(tree)
        exec(compile(tree, f"{self.rel}:{name}", "exec"), self.env)

    def fn(self, name):
        """callable taking the model values (Vec, PyArr, numbers)"""
        if name in self.stubs:
            return self.stubs[name]
        self.load(name)
        f = self.env[name]
        sig = self.sig[name]

        def call(*args):
            if len(args) != len(sig):
                raise Unsupported(f"{name} takes {len(sig)} arguments")
            conv = []
            for a, (nm, t, raw) in zip(args, sig):
                if isinstance(a, symnp.SymArray):
                    if "array_t<" in t or "array_t<" in raw:
                        kind = "f" if "double" in (t + raw).split("array_t<")[1].split(",")[0].split(">")[0] else "i"
                        if kind != a.kind:
                            raise Unsupported("array element type")
                        a = PyArr(a)
                    else:
                        rd = a.ravel().snap()
                        a = Vec(a.size, lambda j, rd=rd: rd(j), a.kind, "double" if a.kind == "f" else "int")
                conv.append(a)
            return f(*conv)
        return call


def vec_of(a):
    """std::vector with the contents of a 1-d array"""
    rd = a.snap()
    return Vec(a.shape[0], lambda j: rd(j), a.kind, "double" if a.kind == "f" else "int")
