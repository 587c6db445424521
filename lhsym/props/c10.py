"""C10: Direct transfers of Gooding, Izzo, Der and Arora take the requested time."""
from .common import TRUST
from . import transfer as T, tof
from .. import summ
from ..alg import Unsupported

NAMES = ("gooding1990", "izzo2015", "der2011", "arora2013")
LEVEL = "other"
METHOD = ("Each solver is executed symbolically on a transfer problem whose gravitational parameter, radii, transfer angle and time of flight are symbols; its iteration is replaced by one "
          "pass from an arbitrary state whose convergence test is met. The residual that this test makes vanish is solved for the time of flight, exactly; Kepler's equation for the conic of the "
          "returned velocities, multiplied out, leaves a combination of angles of the solver (arc cosines, arc tangents, logarithms) with rational coefficients, and algebra shows that its cosine and sine "
          "(or hyperbolic sine) are those of the change of eccentric anomaly between the two states, the solver (z3) that it lies in the revolution asked for. " + T.LEFT_OPEN)
BOUNDS = T.BOUNDS
ASSUMPTIONS = TRUST + T.ASSUMES + [
    "a met convergence test is taken for a residual of zero: how far its tolerance lets the time of flight be off is not part of the claim",
    "paths on which the solver uses a series or an iteration inside of its equation have no exact identity: they are undecided here, and C16 or C21 look at them"]


def inside(M):
    def f(S, p, v1, v2):
        try:
            return tof.timing(S, p, v1, v2, M)
        except Unsupported as e:
            return dict(why=str(e)[:80])
    return f


def on_return(S, p, v1, v2):
    d = p.inside
    S.R.paths[d.get("kind", "open")] = S.R.paths.get(d.get("kind", "open"), 0) + 1
    if "why" in d:
        S.R.note(d["why"])
        S.R.ob("the time of flight can be compared", None)
        return True
    r = [S.zero("Kepler's equation", *d["zero"])]
    if "turn" in d:
        r.append(S.zero("eccentric anomaly swept", *d["turn"]))
    for a in d.get("range", ()):
        r.append(S.holds("number of revolutions", a, timeout=3000))
    return any(t is not True for t in r)


def job(R, budget, tier, solver, pro, M, table, checks):
    P = T.Problem(R, budget, solver, table, pro=pro, M=M, checks=checks)
    P.refine(on_return, inside=inside(M))


SLOW = {}


def jobs_of(names, tier, Ms=(0,), checks=("tof",)):
    tb = summ.tables(names)
    return [dict(name=f"{s} {'pro' if pro else 'retro'} M={M}", fn=job, budget=SLOW.get(s, 60) if tier == "quick" else 300,
                 args=dict(solver=s, pro=pro, M=M, table=tb.get(s, {}).get(min(M, 1), {}), checks=checks))
            for s in sorted(names, key=lambda t: -SLOW.get(t, 0)) for M in Ms for pro in (True, False)]


def jobs(tier):
    return jobs_of(NAMES, tier)
