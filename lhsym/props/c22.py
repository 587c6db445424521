"""C22: purity."""
import numpy as np
from .common import SOLVERS, MULTI
from .. import terms as U
from ..termrun import Job
from .c23 import clocks, ASSUMPTIONS as A23

LEVEL = "other"
METHOD = ("Every path of a solver is followed on uninterpreted numbers (branches are truth values of comparisons; z3 discards the contradictory ones). "
          "At its end, normal or by exception, each element of the position vectors is the term it was, and everything the modules hold (globals, "
          "attributes and closures of functions, defaults, caches, arrays) is what it was before the call; by induction over calls the result of a call, "
          "which depends on arguments and state only, cannot depend on history. The returned arrays share no memory with the inputs or with the modules, "
          "and depend neither on the clock nor on random numbers; asking for the full output gives the same terms (C23).")
BOUNDS = ("arbitrary positions, mu, time of flight and tolerances, NaN included; maxiter in {1, 2, 35}; every loop test taken at most 3 times in a row; "
          "M in {0, 1} (thorough also 2); both values of full_output; number of paths as in the evidence")
ASSUMPTIONS = A23 + ["state outside lamberthub's modules (numpy, numba's cache on disk, scipy) is not history"]


def held(ld):
    """Arrays the modules keep."""
    out = []

    def walk(o, d):
        if isinstance(o, np.ndarray):
            out.append(o)
        elif d < 4:
            if isinstance(o, dict):
                for v in list(o.values()):
                    walk(v, d + 1)
            elif isinstance(o, (list, tuple)):
                for v in o:
                    walk(v, d + 1)
            elif hasattr(o, "__dict__") and getattr(o, "__module__", "").startswith("lamberthub"):
                walk({k: v for k, v in vars(o).items() if k != "__globals__"}, d + 1)
                for v in list(getattr(o, "__defaults__", None) or ()):
                    walk(v, d + 1)
    for m in ld.mods.values():
        walk({k: v for k, v in m.__dict__.items() if k != "__builtins__"}, 0)
    return out


def pure(R, budget, tier, solver, M):
    J = Job(R, budget, solver, M, maxiters=(1, 2, 35), unroll=3)

    def fn():
        kw = J.options()
        fo = J.choose("full_output", False, True)
        before = J.ld.state()
        r = J.attempt(full_output=fo, **kw)
        return before, r, J.ld.state()

    def on_path(p):
        if p.outcome[0] != "return":
            if p.outcome[0] == "unsupported":
                cand(p, "not followed")
            return
        before, r, after = p.outcome[1]
        good = True

        def ob(name, c):
            nonlocal good
            R.ob(name, True if c else None)
            good = good and c
        ob("positions are left as they were", all(a is b for x, y in ((J.r1, J.in1), (J.r2, J.in2)) for a, b in zip(x, y)) and np.shape(J.r1) == np.shape(J.r2) == (3,))
        ob("nothing is remembered", before == after)
        if r[0] == "return":
            vs = [v for v in r[1][:2] if isinstance(v, np.ndarray)]
            ob("velocities are new arrays", not any(np.shares_memory(v, a) for v in vs for a in [J.r1, J.r2] + held(J.ld)) and
               not (len(vs) == 2 and np.shares_memory(*vs)))
            ob("velocities depend on the arguments only", not clocks(list(r[1][:2])) and not any(clocks(d[0]) for d in p.decs))
            R.sample({"solver": solver, "M": M, "decisions": len(p.decs), "operations": J.eng.ops})
        if not good:
            cand(p, "state")

    def cand(p, why):
        for c in J.cases(p, n=4, kind="pure", ob=why):
            R.cand(c, limit=10)
    J.explore(fn, on_path)


def jobs(tier):
    b = 14 if tier == "quick" else 100
    ms = (0, 1) if tier == "quick" else (0, 1, 2)
    return [dict(name=f"{s} M={m}", fn=pure, budget=b, args=dict(solver=s, M=m)) for m in ms for s in SOLVERS if m == 0 or s in MULTI]
