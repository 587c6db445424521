"""C17: anomaly conversions."""
import numpy as np
from .common import TRUST
from ..harness import Sym, is_nan
from ..engine import compare
from .. import interp as I, funcs as F

LEVEL = "other"
METHOD = ("Every conversion function is executed symbolically on an arbitrary angle (its half angle is a free point of the unit circle or "
          "hyperbola) and an arbitrary eccentricity; cosine and sine of the result must equal the conic relations, both compositions must give "
          "back the cosine and sine of the argument, and ranges and signs are implied by the path.")
BOUNDS = ("every real angle, whole turns included (except odd multiples of pi); 0 <= e < 1 for the elliptic, e > 1 and 1 + e cos nu > 0 for the "
          "hyperbolic conversions; exact real arithmetic")
ASSUMPTIONS = TRUST
FN = {"nu_to_E": ("nu", "ell"), "E_to_nu": ("E", "ell"), "nu_to_H": ("nu", "hyp"), "H_to_nu": ("H", "hyp"), "nu_to_B": ("nu", "par"), "B_to_nu": ("B", "par")}


def job(R, budget, tier, name, turn):
    S = Sym(R, budget=budget, max_paths=200)
    x, eng = S.x, S.eng
    A = S.ld.load("lamberthub.utils.angles")
    f = getattr(A, name, None)
    inv = getattr(A, "_to_".join(reversed(name.split("_to_"))), None)
    if f is None or inv is None:
        R.note("function is gone")
        return
    arg, con = FN[name]
    one = x.const(1)
    if con == "ell":
        e = x.var("ecc", 0, 1)
        x.gens[x.fgens[list(e.f)[0]][0]].info = {"closed": False}
        x.add_nice(one - e, one + e)
    elif con == "hyp":
        e = one + x.var("ecc1", 0)
        x.add_nice(e - one, one + e)
    ea = (e,) if con != "par" else ()
    if arg == "H":
        t = F.free_angle(x, "H", None, None, div=2, kind="hyp")
    elif arg == "B":
        t = x.var("B")
    else:
        lo, hi = {0: (-np.pi, np.pi), 1: (np.pi, 3 * np.pi), -1: (-3 * np.pi, -np.pi), None: (-9, 9)}[turn]
        t = F.free_angle(x, "nu", lo, hi, div=2)
        hc = F.cossin(t / 2)[0]
        eng.base.append((hc if turn == 0 else -hc if turn in (1, -1) else hc * hc, ">"))
    if con == "hyp" and arg == "nu":
        eng.base.append((one + e * F.vcos(t), ">"))
    e0 = [x.const(0)] if con == "ell" else []

    S.fallback(dict(arg=t, ecc=e if con != "par" else 1.0), kind="anomaly", fn=name)

    def fn():
        ee = ea
        if e0 and eng.choice(2, "circular"):
            ee = (e0[0],)
        eng.path.ee = ee
        r = f(t, *ee)
        return r, inv(r, *ee)

    def on_path(p):
        R.reached += 1
        und = []
        S.declare(dict(arg=t, ecc=p.ee[0] if getattr(p, "ee", None) else 1.0), kind="anomaly", fn=name, ob="anomaly")
        t_ = lambda z: und.append(1) if z is not True else None
        ee = p.ee[0] if getattr(p, "ee", None) else None
        if p.outcome[0] != "return" or is_nan(list(p.outcome[1])):
            if S.dead():
                R.ob("returns a number", True)
                return
            R.ob("returns a number", None)
            und = [1]
        else:
            r, b = (I.tov(v) for v in p.outcome[1])
            if con == "par":
                if arg == "nu":
                    c, s = F.cossin(t / 2)
                    t_(S.zero("parabolic anomaly is tan(nu/2)", r * c - s))
                    bc, bs = F.cossin(b)
                    c, s = F.cossin(t)
                    t_(S.zero("inverse gives back the angle", bc - c, bs - s))
                else:
                    t_(S.zero("inverse gives back the anomaly", b - t))
                    c, s = F.cossin(r)
                    t_(S.zero("tan(nu/2) is the parabolic anomaly", s - t * (one + c)))
            else:
                kb = "hyp" if arg == "H" else "circ"
                kr = "hyp" if name == "nu_to_H" else "circ"
                rc, rs = F.cossin(r, kr)
                tc, ts = F.cossin(t, kb)
                bc, bs = F.cossin(b, kb)
                t_(S.zero("inverse gives back the angle", bc - tc, bs - ts))
                (nc, ns), (Ec, Es) = ((tc, ts), (rc, rs)) if arg == "nu" else ((rc, rs), (tc, ts))
                if con == "ell":
                    w = F.vsqrt((one - ee) * (one + ee))
                    d = one - ee * Ec
                    t_(S.zero("conic relations", nc * d - (Ec - ee), ns * d - w * Es))
                else:
                    w = F.vsqrt((ee - one) * (ee + one))
                    d = ee * Ec - one
                    t_(S.zero("conic relations", nc * d - (ee - Ec), ns * d - w * Es))
            if con != "par" or arg == "B":
                if kr_circ(name):
                    t_(S.holds("result within half a turn", compare(r, x.pi(), "<=")))
                    t_(S.holds("result within half a turn", compare(r + x.pi(), x.const(0), ">=")))
            if turn in (0, None) and arg != "B":
                # same sign as the argument: the sines have the same sign and, for arguments within half a turn, so do the angles
                if arg == "H" or name == "nu_to_H":
                    zr = F.cossin(r, "hyp")[1] if name == "nu_to_H" else F.vsin(r)
                    za = F.vsin(t) if name == "nu_to_H" else F.cossin(t, "hyp")[1]
                    t_(S.holds("sign kept", compare(zr * za, x.const(0), ">=")))
                elif con == "ell":
                    t_(S.holds("sign kept", compare(F.vsin(r) * F.vsin(t), x.const(0), ">=")))
        R.sample({"function": name, "path": [str(c[0])[:70] + c[1] for c in p.cons][:4]})
        if und:
            for c in S.case(dict(arg=t, ecc=ee if ee is not None else 1.0), n=4, kind="anomaly", fn=name, ob="anomaly"):
                R.cand(c)
    S.explore(fn, on_path)


def kr_circ(name):
    return not name.endswith("_H") and not name.endswith("_B")


def jobs(tier):
    b = 20 if tier == "quick" else 120
    out = []
    for n, (a, c) in FN.items():
        for turn in ((0, 1, -1) if a in ("nu", "E") else (None,)):
            if n == "nu_to_H" and turn:
                continue
            out.append(dict(name=f"{n} turn {turn}", fn=job, budget=b, args=dict(name=n, turn=turn)))
    return out
