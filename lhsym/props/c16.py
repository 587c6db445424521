"""C16: Stumpff functions."""
from fractions import Fraction
from math import factorial
import numpy as np
import z3
from .common import TRUST
from ..harness import Sym, is_nan
from ..engine import compare, SymBool
from ..alg import V, vpowi
from .. import interp as I, funcs as F, fl

LEVEL = "other"
METHOD = ("c2 and c3 are executed symbolically for an arbitrary argument with a bound on the rounding error carried along; in the closed-form "
          "regimes the value must be identical to the closed form and the error bound must stay below the tolerance for every argument of the "
          "path; in the series regime the loop is unrolled, its floating-point stop test is modelled by the largest and smallest increments that "
          "rounding can absorb, and the partial sum must be within the tolerance of the Taylor bounds of the function for every argument (z3).")
BOUNDS = "every real argument; at most 40 loop iterations (the stop test is proved to act earlier); tolerance 1e-12 (1 + sqrt|psi|) relative to the scale of the function"
ASSUMPTIONS = TRUST + ["libm sqrt is correctly rounded, cos, sin, cosh and sinh are within 1 ulp; error terms of second order are covered by one percent of slack"]
TOL = Fraction(1, 10 ** 12)


def job(R, budget, tier, name, side, module="utils.stumpff", n0=None, TOL=TOL, **kw):
    S = Sym(R, budget=budget, max_paths=200, unroll=40)
    x, eng = S.x, S.eng
    fl.install(S.ld)
    M = S.ld.load("lamberthub." + module)
    f = getattr(M, name, None)
    if f is None:
        R.note("function is gone")
        return
    zero = x.const(0)
    w = x.var("w", 0, sampler=lambda r, n: np.exp(r.uniform(-12, 5, n)))
    psi = {1: w, -1: -w, 0: zero}[side]
    n0 = n0 if n0 is not None else 2 if name == "c2" else 3
    if kw:
        kw.update(mod=module, n0=n0)
    lead = Fraction(1, factorial(n0))

    def taylor(K):
        return sum((vpowi(-psi, k) * Fraction(1, factorial(2 * k + n0)) if k else x.const(lead) for k in range(K)), zero)

    S.fallback(dict(psi=psi), kind="stumpff", fn=name, **kw)

    def fn():
        return f(fl.EV(psi))

    def closed():
        s = F.vsqrt(w)
        if side > 0:
            c, sn = F.cossin(s)
            return c if n0 == 0 else sn / s if n0 == 1 else (x.const(1) - c) / w if n0 == 2 else (s - sn) / (w * s)
        c, sn = F.cossin(s, "hyp")
        return c if n0 == 0 else sn / s if n0 == 1 else (c - 1) / w if n0 == 2 else (sn - s) / (w * s)

    def on_path(p):
        R.reached += 1
        und = []
        S.declare(dict(psi=psi), kind="stumpff", fn=name, **kw, ob="stumpff")
        t_ = lambda z: und.append(1) if z is not True else None
        r = p.outcome[1] if p.outcome[0] == "return" else None
        if isinstance(r, (int, V)) and not isinstance(r, bool):
            r = fl.EV.of(r)
        if not isinstance(r, fl.EV):
            if S.dead():
                return
            R.ob("returns a number", None)
            und = [1]
        elif side == 0:
            t_(S.zero("value at zero", r.v - lead))
            t_(S.holds("rounding", compare(r.e, x.const(TOL), "<=")))
        else:
            cl = closed()
            s = F.vsqrt(w)
            if eng.is_zero(r.v - cl):
                R.ob("closed form", True)
                if side > 0:
                    tol = (s + 1) * TOL / ((w + 1) if n0 > 1 else x.const(1))
                    ax = []
                else:
                    C, Sh = F.cossin(s, "hyp")
                    # the closed form itself is the scale
                    tol = cl * (s + 1) * TOL
                    zc, zs, zw = eng.zpoly_of(C), eng.zpoly_of(Sh), eng.zpoly_of(s)
                    ax = [zc >= 1 + zw * zw / 2, zs >= zw + zw * zw * zw / 6, zs > 0]
                bad = compare(r.e, tol, ">")
                c = eng.check([bad], timeout=8000, extra=ax) if isinstance(bad, SymBool) else bad
                R.ob("rounding error", True if c is False else None)
                t_(c is False)
                if c is not False and isinstance(bad, SymBool):
                    S.counterexample([bad, compare(w, x.const(Fraction(1, 10 ** 3)), "<")], [bad])
            else:
                # partial sums against the Taylor bounds: K terms, remainder at most twice the next one, valid while w < (2K)^2/2
                K = 16
                T = taylor(K)
                rem = vpowi(w, K) * Fraction(2, factorial(2 * K + n0))
                tol = x.const(TOL)
                conds = [compare(w, x.const(K * K * 2), "<=")]
                inside = S.holds("series regime is bounded", conds[0], timeout=4000)
                t_(inside)
                d = r.v - T
                for sgn in (1, -1):
                    t_(S.holds("partial sum is close to the function", compare(d * sgn + rem + r.e, tol, "<="), timeout=8000))
        R.sample({"function": name, "side": side, "path": [str(c[0])[:70] + c[1] for c in p.cons][:6]})
        if und:
            for c in S.case(dict(psi=psi), n=4, kind="stumpff", fn=name, **kw, ob="stumpff"):
                R.cand(c)
            if side:
                for bound in (compare(w, x.const(2), "<"), compare(w, x.const(Fraction(1, 100)), "<"), compare(w, x.const(Fraction(1, 10 ** 6)), "<"), compare(w, x.const(50), ">")):
                    c = S.model_case(dict(psi=psi), [bound])
                    if c:
                        R.cand({**c, "kind": "stumpff", "fn": name, **kw, "ob": "stumpff model"})
    S.explore(fn, on_path)


def jobs(tier):
    b = 60 if tier == "quick" else 300
    return [dict(name=f"{n} {'-0+'[s + 1]}", fn=job, budget=b, args=dict(name=n, side=s)) for n in ("c2", "c3") for s in (1, -1, 0)]
