"""C03: collinear positions never produce made-up or non-finite velocities."""
from .common import SOLVERS, MULTI, TRUST
from .c01 import Sum, vec
from ..harness import Sym, is_nan
from ..engine import compare
from .. import interp as I

LEVEL = "other"
METHOD = ("Every solver is executed symbolically on r2 = kappa r1 with r1 an arbitrary 3-vector and kappa an arbitrary real, in both senses; "
          "every feasible path must raise ValueError or RuntimeError, or return velocities that are finite and along r1 (kappa > 0).")
BOUNDS = "r1 arbitrary real 3-vector, kappa in (0, 1), (1, inf) or (-inf, 0), M = 0 (and 1 for multi-revolution solvers)"
ASSUMPTIONS = TRUST + ["near-collinear positions, where the cross product is not exactly zero, are outside"]


def dy(v, k=8):
    w = round(v * k) / k
    return w if w or not v else (1 / k if v > 0 else -1 / k)


def one(R, budget, solver, case, M):
    S = Sym(R, budget=budget, max_paths=60)
    x, eng = S.x, S.eng
    eng.report_all = True
    eng.skip_exhausted = eng.skip_failures = True
    f = getattr(S.mod, solver)
    mu, tof = x.var("mu", lo=0), x.var("tof", lo=0)
    r1 = vec(x, "p")
    if case == "opposite":
        ka = -x.var("kappa", lo=0)
    elif case == "shorter":
        ka = x.var("kappa", lo=0, hi=1)
    else:
        ka = 1 + x.var("kappa", lo=0)
    r2 = I.arr([ka * t for t in r1])
    tl = S.tols()

    def fn():
        p = eng.path
        p.pro = bool(eng.choice(2, "sense"))
        i = eng.choice(3, "nonzero")
        eng.assume(compare(r1[i], x.const(0), "!="))
        return f(mu, r1, r2, tof, M=M, is_prograde=p.pro, **tl)

    def on_path(p):
        R.reached += 1
        nm = f"{case}, M = {M}"
        o = p.outcome
        if o[0] == "raise" and isinstance(o[1], (ValueError, RuntimeError)):
            R.ob(nm, True)
            R.sample({"solver": solver, "case": nm, "outcome": repr(o[1])[:80]})
            return
        if o[0] == "return" and not is_nan(o[1]) and case != "opposite":
            v1, v2 = o[1][:2]
            cr = [t for v in (v1, v2) for t in I.np_cross(v, r1)]
            if S.zero(nm, *cr):
                return
            st = None
        else:
            st = False
        cs = S.case(dict(mu=mu, r1=r1, ka=ka, tof=tof), n=3, kind="collinear", solver=solver, pro=p.pro, M=M, ob=nm)
        if st is False:
            R.ob(nm, False if cs else None)
        for c in cs:
            c["r1"] = [dy(t) for t in c["r1"]]
            k = c.pop("ka")
            k = min((0.25, 0.5, 2.0, 4.0, 8.0, -0.25, -0.5, -1.0, -2.0, -4.0), key=lambda t: abs(t - k) if (t > 0) == (k > 0) and ((abs(t) < 1) == (abs(k) < 1)) else 99)
            c["r2"] = [k * t for t in c["r1"]]
            R.cand(c)
    S.explore(fn, on_path)


def job(R, budget, tier, solver):
    tot = Sum()
    cs = [(c, M) for M in ((0, 1) if solver in MULTI else (0,)) for c in ("opposite", "shorter", "longer")]
    for c, M in cs:
        one(R, budget / len(cs), solver, c, M)
        tot.take(R)
    tot.put(R)


def jobs(tier):
    b = 18 if tier == "quick" else 90
    return [dict(name=s, fn=job, budget=b, args=dict(solver=s)) for s in SOLVERS]
