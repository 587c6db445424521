"""C14: The low and high path flags select the two distinct multi-revolution branches."""
from fractions import Fraction
import numpy as np
from .common import TRUST, MULTI, SOLVERS
from . import transfer as T
from .. import funcs as F, interp as I, summ
from .. import terms as U
from ..termrun import Job
from ..engine import compare
from .c23 import ASSUMPTIONS as A23

LEVEL = "other"
METHOD = ("Without revolutions: every solver is followed on uninterpreted numbers, once with either flag under the same decisions about them; the outcomes have to be the same terms, on every path. "
          "With revolutions: the solver is executed symbolically on a transfer problem of symbols; for the returned velocities the slope of the time of flight over Der's path parameter, an algebraic "
          "expression, has to be positive for the low path and negative for the high one. " + T.LEFT_OPEN + " On which side an iteration ends cannot be told from one pass of it: what remains undecided is "
          "searched with replayed models and points on both sides of the minimum time, next to it and far from it.")
BOUNDS = ("M = 0: arbitrary positions, mu, time of flight and tolerances, NaN included; maxiter in {1, 2}; every loop test taken at most 3 times in a row. M in {1, 2} (thorough also 3): every mu > 0, "
          "tof > 0 and pair of positions that are not collinear, in the plane of x and y, both senses")
ASSUMPTIONS = A23 + T.ASSUMES


def flag(R, budget, tier, solver):
    J = Job(R, budget, solver, 0, maxiters=(1, 2), unroll=3)

    def fn():
        kw = J.options()
        return [J.attempt(**{**kw, "is_low_path": low}) for low in (True, False)]

    def cand(p, why):
        for c in J.cases(p, n=3, kind="flag", ob=why):
            R.cand(c, limit=12)

    def on_path(p):
        if p.outcome[0] != "return":
            if p.outcome[0] == "unsupported":
                cand(p, "not followed")
            return
        a, b = p.outcome[1]
        same = a[0] == b[0] and (a[1] == b[1] if a[0] == "raise" else all(U.ident(np.asarray(s)) == U.ident(np.asarray(t)) for s, t in zip(a[1], b[1])))
        R.ob("the flag has no influence", True if same else None)
        if same:
            R.sample({"solver": solver, "outcome": a[0], "decisions": len(p.decs)})
        else:
            cand(p, "flag")
    J.explore(fn, on_path)


def on_return(S, p, v1, pro):
    x = S.x
    r1, r2 = S.r1, S.r2
    d = [b - a for a, b in zip(r1, r2)]
    ch = F.vsqrt(T.dot(d, d))
    m, n = S.R1 + S.R2 + ch, S.R1 + S.R2 - ch
    i = [t / ch for t in d]
    j = [a / S.R1 for a in r1]
    w = I.np_cross(i, j)[2]
    vc, vr = I.np_cross(v1, j)[2] / w, I.np_cross(i, v1)[2] / w
    xx, yy = F.vsqrt(m) * (vc - vr) / (2 * S.k), F.vsqrt(n) * (vc + vr) / (2 * S.k)
    tau = 4 * S.tof * S.k / F.vpow(m, Fraction(3, 2))
    sg = F.vsqrt(n / m)
    if not pro:
        sg, yy = -sg, -yy
    slope = 3 * xx * tau * yy - 2 * (yy - sg * sg * sg * xx)
    op = ">=" if p.low else "<="
    r = S.holds("side of the minimum time", compare(slope, x.const(0), op), timeout=1500)
    return r is not True


def side(R, budget, tier, solver, pro, M, table):
    T.Problem(R, budget, solver, table, pro=pro, M=M, checks=("side",)).refine(lambda S, p, v1, v2: on_return(S, p, v1, pro), rounds=5)


def jobs(tier):
    q = tier == "quick"
    tb = summ.tables(MULTI)
    return [dict(name=f"{s} {'pro' if pro else 'retro'} M={M}", fn=side, budget=20 if q else 100, args=dict(solver=s, pro=pro, M=M, table=tb.get(s, {}).get(1, {})))
            for s in MULTI for M in ((1, 2) if q else (1, 2, 3)) for pro in (True, False)] + \
        [dict(name=f"{s} M=0", fn=flag, budget=10 if q else 60, args=dict(solver=s)) for s in SOLVERS]
