"""C20: state to elements."""
import numpy as np
from .common import TRUST
from .c19 import elements, perifocal
from ..harness import Sym, is_nan
from ..engine import compare
from .. import interp as I, funcs as F

LEVEL = "other"
METHOD = ("States are written from arbitrary elements with formulas independent of the code; rv2coe is executed symbolically on them and its "
          "outputs must equal the elements (semi-latus rectum and eccentricity as values, the angles by cosine and sine, with the conventional "
          "angle taken over by nu for equatorial and circular orbits), so the elements convert back to the same state; ranges are proved from the path.")
BOUNDS = ("e = 0 or 1e-6 < e < 1 or e > 1 (parabolic excluded), 1 + e cos nu > 0; inclination 0, pi or in [1e-4, pi - 1e-4]; every node, argument and "
          "anomaly; mu and p arbitrary positive; exact real arithmetic with the default tolerance")
ASSUMPTIONS = TRUST


def job(R, budget, tier, con, plane, nuq=None):
    S = Sym(R, budget=budget, max_paths=300)
    x, eng = S.x, S.eng
    E = S.ld.load("lamberthub.utils.elements")
    f = getattr(E, "rv2coe", None)
    if f is None:
        R.note("function is gone")
        return
    one, zero = x.const(1), x.const(0)
    k, sp, e = elements(S, con=con)
    half = con in ("ell", "hyp") and plane == "inc"
    nu = F.free_angle(x, "nu", -np.pi, np.pi, div=2)
    raan = F.free_angle(x, "raan", 0, 2 * np.pi)
    argp = F.free_angle(x, "argp", 0, 2 * np.pi)
    eng.base.append((F.cossin(nu / 2)[0], ">"))
    if con != "circ":
        eng.base.append((e - x.const("1/1000000"), ">"))
    if con == "hyp":
        eng.base.append((one + e * F.vcos(nu), ">"))
    cn = F.cossin(nu)
    if plane == "inc":
        inc = F.free_angle(x, "inc", 0, np.pi)
        ci = F.cossin(inc)
        eng.base.append((inc - x.const("1/10000"), ">"))
        eng.base.append((x.pi() - inc - x.const("1/10000"), ">"))
        eng.base.append((ci[1], ">"))
    else:
        inc = zero if plane == "zero" else x.pi()
        ci = (one if plane == "zero" else -one, zero)
    cO, cw = F.cossin(raan), F.cossin(argp)
    mu, p_, r0, v0 = perifocal(x, k, sp, e, cn, ci, cO, cw)

    S.fallback(dict(mu=mu, p=p_, ecc=e, inc=inc, raan=raan, argp=argp, nu=nu), kind="rv2coe")

    def fn():
        return f(mu, I.arr(r0), I.arr(v0))

    def add(a, b):
        return a[0] * b[0] - a[1] * b[1], a[1] * b[0] + a[0] * b[1]

    def on_path(p):
        R.reached += 1
        und = []
        S.declare(dict(mu=mu, p=p_, ecc=e, inc=inc, raan=raan, argp=argp, nu=nu), kind="rv2coe", ob="rv2coe")
        t_ = lambda z: und.append(1) if z is not True else None
        if p.outcome[0] != "return" or is_nan(list(p.outcome[1])):
            if S.dead():
                return
            R.ob("returns elements", None)
            und = [1]
        else:
            q = [I.tov(v) for v in p.outcome[1]]
            t_(S.zero("semi-latus rectum", q[0] - p_))
            t_(S.zero("eccentricity", q[1] - e))
            c = [F.cossin(v) for v in q[2:]]
            t_(S.zero("inclination", c[0][0] - ci[0], c[0][1] - ci[1]))
            # the state given back, and, where the angles are unique, the angles themselves
            if plane == "inc":
                t_(S.zero("node", c[1][0] - cO[0], c[1][1] - cO[1]))
                if con == "circ":
                    w = add(cw, cn)
                    g = add(c[2], c[3])
                    t_(S.zero("argument of latitude", g[0] - w[0], g[1] - w[1]))
                else:
                    t_(S.zero("argument of periapsis", c[2][0] - cw[0], c[2][1] - cw[1]))
                    t_(S.zero("true anomaly", c[3][0] - cn[0], c[3][1] - cn[1]))
            else:
                s = 1 if plane == "zero" else -1
                # in the reference plane only raan +- argp (and + nu) matters
                flip = lambda a: (a[0], a[1] * s)
                if con == "circ":
                    g = add(c[1], flip(add(c[2], c[3])))
                    w = add(cO, flip(add(cw, cn)))
                    t_(S.zero("true longitude", g[0] - w[0], g[1] - w[1]))
                else:
                    g, w = add(c[1], flip(c[2])), add(cO, flip(cw))
                    t_(S.zero("longitude of periapsis", g[0] - w[0], g[1] - w[1]))
                    t_(S.zero("true anomaly", c[3][0] - cn[0], c[3][1] - cn[1]))
            t_(S.holds("range of inc", compare(q[2], zero, ">=")))
            t_(S.holds("range of inc", compare(q[2], x.pi(), "<=")))
            for n, v in (("raan", q[3]), ("argp", q[4])):
                t_(S.holds("range of " + n, compare(v, zero, ">=")))
                t_(S.holds("range of " + n, compare(v, 2 * x.pi(), "<")))
            t_(S.holds("range of nu", compare(q[5] + x.pi(), zero, ">=")))
            t_(S.holds("range of nu", compare(q[5], x.pi(), "<")))
        R.sample({"orbit": f"{con} {plane}", "path": [str(c[0])[:70] + c[1] for c in p.cons][:4]})
        if und:
            for c in S.case(dict(mu=mu, p=p_, ecc=e, inc=inc, raan=raan, argp=argp, nu=nu), n=4, kind="rv2coe", ob="rv2coe"):
                R.cand(c)
    S.explore(fn, on_path)


def jobs(tier):
    b = 40 if tier == "quick" else 200
    return [dict(name=f"{c} {p}", fn=job, budget=b, args=dict(con=c, plane=p)) for c in ("circ", "ell", "hyp") for p in ("inc", "zero", "pi")]
