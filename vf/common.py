TRUSTED = [
    "vf/ (verification-condition generator: AST rewriting, symbolic execution, loop rule, C++ front end)",
    "z3 5.3 (python3-vt), CPython 3.12, clang 18 AST export",
    "contracts of numpy/scipy/pyamg/mpi4py/CGAL operations (vf/symnp.py, vf/shims.py), cross-checked by concrete runs",
]
ASSUMPTIONS = [
    "floating point is treated as exact real arithmetic; integers are mathematical",
    "library operations satisfy the contracts written in vf/symnp.py and vf/shims.py",
]
