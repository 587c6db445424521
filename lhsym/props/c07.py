"""C07: Gauss, Battin, Jiang and Pan return two states of one and the same conic."""
from .common import TRUST, MULTI
from . import transfer as T
from .. import summ

NAMES = ("gauss1809", "battin1984", "jiang2016", "pan2016")
SLOW = {"pan2016": 20, "arora2013": 30, "der2011": 25}
LEVEL = "other"
METHOD = ("Each solver is executed symbolically on a transfer problem whose gravitational parameter, radii, transfer angle and time of flight are symbols. The angular "
          "momentum and the eccentricity vector at r1 and at r2 are formed from the velocities of each path, and their differences are shown to vanish identically "
          "(algebra over the relations of the path, z3 for the path conditions); the energy follows from these two. " + T.LEFT_OPEN)
BOUNDS = T.BOUNDS
ASSUMPTIONS = TRUST + T.ASSUMES


def on_return(S, p, v1, v2):
    h1, h2, e1, e2 = T.conic(S, v1, v2)
    a = S.zero("same angular momentum", *[s - t for s, t in zip(h1, h2)])
    b = S.zero("same eccentricity vector", *[s - t for s, t in zip(e1, e2)])
    return a is not True or b is not True


def job(R, budget, tier, solver, pro, M, table):
    T.Problem(R, budget, solver, table, pro=pro, M=M, checks=("conic", "finite")).refine(on_return)


def jobs_of(names, tier):
    tb = summ.tables(names)
    return [dict(name=f"{s} {'pro' if pro else 'retro'} M={M}", fn=job, budget=SLOW.get(s, 12) if tier == "quick" else 200,
                 args=dict(solver=s, pro=pro, M=M, table=tb.get(s, {}).get(min(M, 1), {})))
            for s in sorted(names, key=lambda t: -SLOW.get(t, 0)) for M in ((0, 1, 2) if s in MULTI else (0,)) for pro in (True, False) if M < 2 or tier == "thorough" or pro]


def jobs(tier):
    return jobs_of(NAMES, tier)
