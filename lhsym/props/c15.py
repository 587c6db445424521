"""C15: unconverged solutions are never returned."""
import numpy as np
from .common import SOLVERS, MULTI
from .. import terms as U
from ..termrun import Job
from .c23 import ASSUMPTIONS as A23

LEVEL = "other"
METHOD = ("Every solver is followed on uninterpreted numbers with tolerances below zero, which no distance meets (z3 knows the signs of moduli, sums and "
          "products): whatever the iterates are, no path may return, unless a bracketing root finder of scipy reported convergence, a residual changes sign within the "
          "tolerance, or it vanished exactly. Hence every return of the solver lies behind a convergence test that was met, whatever the number of iterations left.")
BOUNDS = ("arbitrary positions, mu and time of flight, NaN included; maxiter in {1, 2, 3, 35}; every loop test taken at most 3 times in a row; M in {0, 1} "
          "(thorough also 2); number of paths as in the evidence")
ASSUMPTIONS = A23 + ["what a convergence test compares is not judged here: C10 to C14 tell whether a met test means a solution",
                     "an exactly vanishing residual counts as convergence"]


def depends(t, names, memo):
    if isinstance(t, (U.T, U.B)):
        if t.op == "sym":
            return t.args[0] in names
        k = (type(t), t.id)
        if k not in memo:
            memo[k] = False
            memo[k] = any(depends(a, names, memo) for a in t.args)
        return memo[k]
    if isinstance(t, (tuple, list)):
        return any(depends(a, names, memo) for a in t)
    if isinstance(t, np.ndarray):
        return any(depends(a, names, memo) for a in t.ravel())
    return False


def encloses(b, memo={}):
    """f(x - tol) f(x + tol) <= 0: the root is enclosed within the tolerance."""
    x, y = b.args
    return isinstance(y, (int, float)) and y == 0 and isinstance(x, U.T) and x.op == "mul" and \
        all(depends(a, ("tof",), {}) and depends(a, ("atol", "rtol"), {}) for a in x.args)


def unconverged(R, budget, tier, solver, M):
    J = Job(R, budget, solver, M, maxiters=(1, 2, 3, 35), unroll=3)

    def fn():
        return J.attempt(**J.options())

    def on_path(p):
        if p.outcome[0] != "return":
            return
        r = p.outcome[1]
        if r[0] == "raise":
            R.ob("no return without convergence", True)
            return
        why = None
        memo = {}
        for b, v in p.decs:
            if b.op == "converged" and v:
                why = "bracketing"
            elif b.op == "eq" and v and any(isinstance(a, (int, float)) and a == 0 for a in b.args) and depends(b, ("tof",), memo):
                why = why or "exact"
            elif b.op in ("le", "lt") and v and encloses(b):
                why = why or "enclosure"
        R.ob("no return without convergence", True if why else None)
        if why:
            R.sample({"solver": solver, "M": M, "returned by": why, "decisions": len(p.decs)})
        else:
            # are the tests of the path contradictory with what the functions really are?
            for c in J.cases(p, n=5, kind="converge", ob="returned"):
                R.cand({k: v for k, v in c.items() if k not in ("atol", "rtol")}, limit=40)
    J.explore(fn, on_path, base=[U.cmp_("lt", J.atol, 0.0), U.cmp_("lt", J.rtol, 0.0), U.cmp_("lt", 0.0, J.tof), U.cmp_("lt", 0.0, J.mu)])


def jobs(tier):
    b = 14 if tier == "quick" else 100
    ms = (0, 1) if tier == "quick" else (0, 1, 2)
    return [dict(name=f"{s} M={m}", fn=unconverged, budget=b, args=dict(solver=s, M=m)) for m in ms for s in SOLVERS if m == 0 or s in MULTI]
