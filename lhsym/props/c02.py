"""C02: revolutions are refused by single-revolution solvers, and only by them."""
import math
import time
from .common import MULTI, SINGLE, TRUST
from .c01 import Sum, vec
from ..harness import Sym, is_nan

LEVEL = "other"
METHOD = ("Single-revolution solvers are executed symbolically with an arbitrary real M >= 1 and arbitrary positions and times: every "
          "feasible path must raise ValueError.  Multi-revolution solvers are executed with M fixed and an arbitrary time on an arbitrary "
          "transfer triangle: a path that returns velocities must exist and be feasible (witnessed).")
BOUNDS = ("M arbitrary >= 1 for refusals; M in {1, 2, 3, 5} for the existence of an answer; planar triangles for the latter, arbitrary "
          "vectors for the former")
ASSUMPTIONS = TRUST


def refuse(R, budget, tier, solver):
    S = Sym(R, budget=budget, max_paths=64)
    x, eng = S.x, S.eng
    eng.report_all = True
    f = getattr(S.mod, solver)
    mu, tof = x.var("mu", lo=0), x.var("tof", lo=0)
    M = x.var("M", sampler=lambda r, n: r.integers(1, 9, n))
    eng.base.append((M - 1, ">="))
    r1, r2 = vec(x, "p"), vec(x, "s")

    seen = []

    def fn():
        p = eng.path
        p.pro, p.low = bool(eng.choice(2, "sense")), bool(eng.choice(2, "low"))
        return f(mu, r1, r2, tof, M=M, is_prograde=p.pro, is_low_path=p.low)

    def on_path(p):
        R.reached += 1
        if p.outcome[0] == "raise" and isinstance(p.outcome[1], ValueError):
            R.ob("refuses M >= 1", True)
            R.sample({"solver": solver, "path": [str(c[0])[:60] + c[1] for c in p.cons][:4], "outcome": "ValueError"})
            return
        cs = S.case(dict(mu=mu, r1=r1, r2=r2, tof=tof, M=M), n=3, kind="reject", solver=solver,
                    why="multiple revolutions are not supported", pro=p.pro, low=p.low, ob="refuse")
        R.ob("refuses M >= 1", False if cs else None)
        if "many" not in seen:
            # not refused for some numbers of revolutions: which, is seen by asking
            seen.append("many")
            for m in (1, 2, 3, 4, 5, 7, 10):
                for w in (1.1, 2.3):
                    cs.append(dict(mu=1.0, r1=[1.0, 0.0, 0.0], r2=[1.3 * math.cos(w), 1.3 * math.sin(w), 0.0], tof=12.0 * (m + 2), M=m, kind="reject", solver=solver,
                                   why="multiple revolutions are not supported", pro=p.pro, low=p.low, ob="refuse"))
        for c in cs:
            c["M"] = max(1, round(c["M"]))
            R.cand(c, limit=20)
    S.explore(fn, on_path)


class Found(BaseException):
    pass


def answer(R, budget, tier, solver):
    Ms = (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 7, 10)
    tot = Sum()
    t0 = time.time()
    for n, M in enumerate(Ms):
        left = budget - (time.time() - t0)
        S = Sym(R, budget=max(2, left / (len(Ms) - n)), max_paths=300)
        S.planar(T=1, k=1)
        eng = S.eng
        f = getattr(S.mod, solver)
        tl = S.tols()
        found = []

        def fn():
            return f(S.mu, S.r1, S.r2, S.tof, M=M, is_prograde=True, is_low_path=True, **tl)

        def on_path(p):
            R.reached += 1
            if p.outcome[0] == "return" and not is_nan(p.outcome[1]) and p.mask.any():
                found.append(1)
                eng.deadline = 0   # one witness is enough
        ps = S.explore(fn, on_path)
        refusals = {str(p.outcome[1])[:80] for p in ps if p.outcome[0] == "raise"}
        st = True if found else (False if eng.complete and not any(p.outcome[0] == "unsupported" for p in ps) else None)
        R.complete = bool(found) or eng.complete
        R.ob(f"answers with M = {M}", st)
        if not found:
            R.note(f"M={M}: no returning path seen; refusals {sorted(refusals)}")
        # whatever was seen symbolically, a generous problem must be answered
        if st is not True:
            for th in (0.9, 2.0):
                r1, r2 = [1.0, 0, 0], [1.3 * math.cos(th), 1.3 * math.sin(th), 0.0]
                s = 1 + 1.3 + math.dist(r1, r2)
                tm = 2 * math.pi * (s / 4) ** 1.5
                for k in (1.6, 2.3):
                    R.cand(dict(kind="solve", solver=solver, mu=1.0, r1=r1, r2=r2, tof=(M + 1) * tm * k, M=M, pro=True, low=True,
                                must_return=True, checks=[], ob=f"answers {M}"))
        else:
            R.sample({"solver": solver, "M": M, "outcome": "a feasible path returns velocities"})
        tot.take(R)
    tot.put(R)


def jobs(tier):
    b = 14 if tier == "quick" else 60
    return [dict(name="answer " + s, fn=answer, budget=3 * b, args=dict(solver=s)) for s in MULTI] + \
        [dict(name="refuse " + s, fn=refuse, budget=b, args=dict(solver=s)) for s in SINGLE]
