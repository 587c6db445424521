"""C23: calling convention and full output."""
import inspect
import numbers
import numpy as np
from .common import SOLVERS, MULTI
from .. import terms as U
from ..termrun import Job

LEVEL = "other"
METHOD = ("On every path of a solver, followed on uninterpreted numbers (each operation is an arbitrary function, branches are the truth values of "
          "comparisons, z3 discards the contradictory ones), the call is made without and with full_output. Both must end alike, with the same velocities "
          "term by term, which implies bitwise equality for all inputs that take the path, floating point included; the clock must not occur in "
          "velocities or decisions; the iteration count must be an integer of at least zero and the time per iteration must exist whatever the clock says.")
BOUNDS = "arbitrary positions, mu, time of flight and tolerances, NaN included; maxiter in {1, 2, 35}; every loop test taken at most 3 times in a row; M in {0, 1} (thorough also 2); number of paths as in the evidence"
ASSUMPTIONS = ["scipy's root finders are functions of what they are given (bracket, tolerances, the function's values at the ends and at an unknown point)",
               "numba compiles to what the Python source says", "lhsym/terms.py and z3 are trusted", "paths that are not followed carry no claim"]

NAMES = ["mu", "r1", "r2", "tof", "M", "is_prograde", "is_low_path", "maxiter", "atol", "rtol", "full_output"]
DEFAULTS = {"M": 0, "is_prograde": True, "is_low_path": True, "full_output": False}


def signature(R, budget, tier):
    mod = U.Loader().load("lamberthub")
    for s in SOLVERS:
        f = getattr(mod, s, None)
        ok = callable(f)
        if ok:
            p = inspect.signature(f).parameters
            ok = list(p)[:len(NAMES)] == NAMES and all(p[k].default == v for k, v in DEFAULTS.items()) and \
                all(q.default is not inspect.Parameter.empty or q.kind in (q.VAR_KEYWORD, q.VAR_POSITIONAL) for q in list(p.values())[4:])
        R.ob("documented arguments", True if ok else None)
        if not ok:
            R.cand(dict(kind="signature", solver=s, names=NAMES, defaults=DEFAULTS, ob=s))
        else:
            R.sample({"solver": s, "arguments": list(p)})
    R.reached, R.complete = len(SOLVERS), True


def clocks(t, memo={}):
    """Does the value depend on the clock?"""
    if isinstance(t, (U.T, U.B)):
        r = memo.get((type(t), t.id))
        if r is None:
            r = memo[(type(t), t.id)] = isinstance(t, U.T) and t.op == "clock" or any(clocks(a) for a in t.args)
        return r
    if isinstance(t, (tuple, list)):
        return any(clocks(a) for a in t)
    if isinstance(t, np.ndarray):
        return any(clocks(a) for a in t.ravel())
    return False


def counts(eng, n):
    """An integer of at least zero?"""
    if isinstance(n, bool) or isinstance(n, np.bool_):
        return False
    if isinstance(n, numbers.Integral):
        return n >= 0
    if isinstance(n, U.T):
        # iteration counts of root finders, sums of them with integers
        if n.op in ("iterations", "calls"):
            return True
        if n.op in ("add", "mul", "max", "min", "int"):
            return all(counts(eng, a) for a in n.args)
    return False


def outputs(R, budget, tier, solver, M):
    J = Job(R, budget, solver, M, maxiters=(1, 2, 35), unroll=3)

    def fn():
        kw = J.options()
        a = J.attempt(full_output=False, **kw)
        k = len(J.eng.path.decs)
        J.eng.path.first = a
        return a, J.attempt(full_output=True, **kw)

    def cand(p, why):
        for c in J.cases(p, n=3, kind="fullout", ob=why):
            R.cand(c, limit=12)

    def on_path(p):
        if p.outcome[0] != "return":
            if p.outcome[0] == "unsupported":
                cand(p, "not followed")
            return
        a, b = p.outcome[1]
        good = [R.ob("full_output changes no outcome", True if (a[0] == b[0] and (a[0] == "return" or a[1] == b[1])) else None)]
        ok = a[0] == b[0] and (a[0] == "return" or a[1] == b[1])
        why = "outcome"
        if ok and a[0] == "return":
            u, w = a[1], b[1]
            ok = isinstance(u, tuple) and isinstance(w, tuple) and len(u) == 2 and len(w) == 4 and all(np.shape(t) == (3,) for t in u + w[:2])
            R.ob("two velocities, with full_output four values", True if ok else None)
            if ok:
                same = all(U.ident(np.asarray(s)) == U.ident(np.asarray(t)) for s, t in zip(u, w[:2]))
                R.ob("velocities do not depend on full_output", True if same else None)
                ck = not clocks(list(u)) and not any(clocks(d[0]) for d in p.decs)
                R.ob("velocities do not depend on the clock", True if ck else None)
                n = counts(J.eng, w[2])
                R.ob("iterations are an integer of at least zero", True if n else None)
                tm = isinstance(w[3], (U.T, float, int, np.floating)) and not isinstance(w[3], bool)
                R.ob("there is a time per iteration", True if tm else None)
                ok = same and ck and n and tm
                why = "values"
                R.sample({"solver": solver, "M": M, "iterations": str(w[2])[:60], "time": str(w[3])[:60], "decisions": len(p.decs)})
        if not ok:
            cand(p, why)
    J.explore(fn, on_path)
    # types and shapes of a real call
    R.cand(dict(kind="fullout", solver=solver, mu=1.0, r1=[1.0, 0.1, 0.0], r2=[-0.2, 1.3, 0.3], tof=2.3 if M == 0 else 30.0, M=M, pro=True, low=True, ob="example"))


def jobs(tier):
    ms, b = (0, 1) if tier == "quick" else (0, 1, 2), 14 if tier == "quick" else 100
    return [dict(name="signature", fn=signature, budget=20, args={})] + \
        [dict(name=f"{s} M={m}", fn=outputs, budget=b, args=dict(solver=s, M=m)) for m in ms for s in SOLVERS if m == 0 or s in MULTI]
