"""Texts of the evidence files."""
TRUSTED = [
    "lhv/sym: the symbolic executor of the Python subset (it parses /repo's source on every run) and its models of numpy, scipy.optimize and math functions",
    "lhv/sym/arith.py: identity tests over GF(2^61-1), false-accept probability below 2^-40 per test",
    "z3 4.x (python binding) for feasibility and sign queries",
]
ASSUMED = [
    "machine arithmetic treated as mathematical (real) arithmetic; no NaN on returning paths; denominators that are not syntactically zero are non-zero",
    "numba's jit runs the same Python source (NUMBA_DISABLE_JIT semantics)",
    "symbolic loops: the variables a loop assigns are arbitrary at the head of each iteration (no bound on the number of iterations)",
    "numpy, scipy.optimize (brentq, root_scalar, newton), math and time functions behave as documented",
]
