"""C06: The returned motion has the requested sense at both positions."""
from .common import TRUST, MULTI, SOLVERS
from . import transfer as T
from .. import summ, interp as I
from ..engine import compare

NAMES = tuple(SOLVERS)
SLOW = {"pan2016": 14, "arora2013": 20, "der2011": 20}
LEVEL = "other"
METHOD = ("Each solver is executed symbolically on a transfer problem whose gravitational parameter, radii, transfer angle and time of flight are symbols. For each path, "
          "r x v is formed at both positions; that it has no component in the transfer plane is shown by algebra, and the solver shows that the path entails that it does "
          "not point away from the side requested. " + T.LEFT_OPEN)
BOUNDS = ("every mu > 0, tof > 0 and pair of positions that are not collinear, in the plane of x and y in either orientation, and (M = 0) in planes through the z axis (two fixed ones; thorough: "
          "three, and planes of any inclination about one node); prograde and retrograde; M in {0, 1, 2}; any number of iterations; number of paths as in the evidence")
ASSUMPTIONS = TRUST + T.ASSUMES


def job(R, budget, tier, solver, pro, M, table, frame, fargs):
    def on_return(S, p, v1, v2):
        one, zero = S.x.const(1), S.x.const(0)
        c = I.np_cross(S.r1, S.r2)
        if frame == "planar":
            n = [zero, zero, one if pro else -one]
        elif frame == "polar":
            n = [t if pro else -t for t in S.w]     # the convention of the library: r1 x r2 counts as prograde
        else:
            # any inclination: the side is that of the z component of the normal
            n = [t * S.w[2] if pro else -t * S.w[2] for t in S.w]
        und = False
        for r, v, w in ((S.r1, v1, "initial"), (S.r2, v2, "final")):
            h = I.np_cross(r, v)
            a = S.zero(w + " state in the transfer plane", *I.np_cross(h, n))
            b = S.holds(w + " state has the sense requested", compare(T.dot(h, n), zero, ">="), timeout=3000)
            und = und or a is not True or b is not True
        return und
    T.Problem(R, budget, solver, table, pro=pro, M=M, frame=frame, fargs=fargs, checks=("sense",)).refine(on_return)


def jobs(tier):
    tb = summ.tables(NAMES)
    out = []
    for s in sorted(NAMES, key=lambda t: -SLOW.get(t, 0)):
        for M in ((0, 1, 2) if s in MULTI else (0,)):
            for pro in (True, False) if M < 2 or tier == "thorough" else (True,):
                # the two orientations make transfers below and beyond half a turn
                fr = [("planar", dict(flip=f)) for f in (False, True) if tier == "thorough" or M == 0 or f is pro]
                if M == 0:
                    fr += [("polar", dict(n=n, flip=f)) for n, f in ((0, False), (3, True)) if tier == "thorough" or f is not pro]
                    if tier == "thorough":
                        fr += [("polar", dict(n=2, flip=pro))]
                    fr += [("tilted", dict(flip=False))]
                for f, fa in fr:
                    out.append(dict(name=f"{s} {'pro' if pro else 'retro'} M={M} {f} {' '.join(f'{k}={int(v)}' for k, v in fa.items())}", fn=job,
                                    budget=SLOW.get(s, 10) if tier == "quick" else 150,
                                    args=dict(solver=s, pro=pro, M=M, table=tb.get(s, {}).get(min(M, 1), {}), frame=f, fargs=fa)))
    return out
