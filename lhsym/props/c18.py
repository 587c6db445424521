"""C18: mean anomaly and Kepler's area law."""
import numpy as np
from .common import TRUST
from ..harness import Sym, is_nan
from ..engine import compare
from ..diff import D
from .. import interp as I, funcs as F

LEVEL = "other"
METHOD = ("kepler_from_nu is executed symbolically for an arbitrary true anomaly and eccentricity, its value is differentiated exactly on every "
          "path, and dM/dnu (1 + e cos nu)^2 must equal the constant of the conic; the value at periapsis and at the opposite anomaly are "
          "compared exactly; negative eccentricities must raise ValueError on every path.")
BOUNDS = ("nu in (-pi, pi); every e in [0, 1), e = 1, every e > 1 with 1 + e cos nu > 0, every e < 0; exact real arithmetic. With a zero at "
          "periapsis and the derivative everywhere in between the function is determined.")
ASSUMPTIONS = TRUST


def setup(R, budget, con):
    S = Sym(R, budget=budget, max_paths=100)
    x, eng = S.x, S.eng
    K = S.ld.load("lamberthub.utils.kepler")
    one = x.const(1)
    if con == "ell":
        e = x.var("ecc", 0, 1)
        x.add_nice(one - e, one + e)
    elif con == "hyp":
        e = one + x.var("ecc1", 0)
        x.add_nice(e - one, one + e)
    elif con == "neg":
        n = x.var("eneg", 0)
        e = -n
    else:
        e = one if con == "par" else x.const(0)
    t = F.free_angle(x, "nu", -np.pi, np.pi, div=2)
    hc = F.cossin(t / 2)[0]
    eng.base.append((hc, ">"))
    if con == "hyp":
        eng.base.append((one + e * F.vcos(t), ">"))
    return S, K, e, t


def job(R, budget, tier, con):
    S, K, e, t = setup(R, budget, con)
    x, eng = S.x, S.eng
    f = getattr(K, "kepler_from_nu", None)
    if f is None:
        R.note("function is gone")
        return
    one = x.const(1)
    hc, hs = F.cossin(t / 2)
    cg, sg = (x.fgens[list(v.f)[0]][0] for v in (hc, hs))
    bg = next(g.i for g in x.gens if g.kind == "angle" and g.info["c"] is not None and g.info["c"].key() == hc.key())

    S.fallback(dict(nu=t, ecc=e), kind="kepler", con=con)

    def fn():
        if con == "neg":
            return f(t, e)
        return f(t, e), f(-t, e), f(x.const(0), e)

    def on_path(p):
        R.reached += 1
        und = []
        S.declare(dict(nu=t, ecc=e), kind="kepler", con=con, ob="kepler")
        t_ = lambda z: und.append(1) if z is not True else None
        if con == "neg":
            ok = p.outcome[0] == "raise" and isinstance(p.outcome[1], ValueError)
            R.ob("negative eccentricity raises ValueError", True if ok else None)
            und = [] if ok else [1]
        elif p.outcome[0] != "return" or is_nan(list(p.outcome[1])):
            if S.dead():
                R.ob("returns a number", True)
                return
            R.ob("returns a number", None)
            und = [1]
        else:
            M, Mm, M0 = (I.tov(v) for v in p.outcome[1])
            t_(S.zero("vanishes at periapsis", M0))
            t_(S.zero("odd", Mm + M))
            half = x.const(1) / 2
            try:
                d = D(x, {cg: -hs * half, sg: hc * half, bg: half}).val(M)
                r = one + e * F.vcos(t)
                w = {"ell": one - e, "circ": one, "par": None, "hyp": e - one}[con]
                if con == "par":
                    t_(S.zero("area law", d * r * r - 2))
                else:
                    q = F.vsqrt(w * (one + e))
                    t_(S.zero("area law", d * r * r - q * q * q))
            except Exception as ex:
                R.note(f"derivative: {ex}"[:100])
                R.ob("area law", None)
                und.append(1)
        R.sample({"conic": con, "path": [str(c[0])[:70] + c[1] for c in p.cons][:4]})
        if und:
            for c in S.case(dict(nu=t, ecc=e), n=4, kind="kepler", con=con, ob="kepler"):
                R.cand(c)
    S.explore(fn, on_path)


def jobs(tier):
    return [dict(name=c, fn=job, budget=20 if tier == "quick" else 60, args=dict(con=c)) for c in ("ell", "circ", "par", "hyp", "neg")]
