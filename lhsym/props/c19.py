"""C19: elements to state, and rotation matrices."""
import numpy as np
from .common import TRUST
from ..harness import Sym, is_nan
from .. import interp as I, funcs as F

LEVEL = "other"
METHOD = ("coe2rv is executed symbolically with all six elements and mu arbitrary; the six components must be identical to the perifocal "
          "expressions p/(1+e cos nu)(cos nu P + sin nu Q) and sqrt(mu/p)(-sin nu P + (e + cos nu) Q) with P, Q written from the rotation "
          "angles independently. Every entry of the rotation matrices must be identical to the axis-angle formula for an arbitrary angle.")
BOUNDS = "every mu > 0, p > 0, e >= 0 with 1 + e cos nu > 0, all real angles; exact real arithmetic"
ASSUMPTIONS = TRUST


def elements(S, argp=None, con="any"):
    x = S.x
    k2, P2 = x.var("k", 0), x.var("sp", 0)
    one = x.const(1)
    if con == "ell":
        e = x.var("ecc", 0, 1)
        x.add_nice(one - e, one + e)
    elif con == "hyp":
        e = one + x.var("ecc1", 0)
    elif con == "circ":
        e = x.const(0)
    elif con == "par":
        e = one
    else:
        e = x.var("ecc", 0)
    return k2, P2, e


def perifocal(x, k, sp, e, nu, inc, raan, argp):
    """(mu, p, r, v) from the angles (cos, sin pairs)."""
    (cn, sn), (ci, si), (cO, sO), (cw, sw) = nu, inc, raan, argp
    P = [cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si]
    Q = [-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si]
    rr = sp * sp / (x.const(1) + e * cn)
    kv = k / sp
    r = [rr * (cn * a + sn * b) for a, b in zip(P, Q)]
    v = [kv * ((e + cn) * b - sn * a) for a, b in zip(P, Q)]
    return k * k, sp * sp, r, v


def state(R, budget, tier, con):
    S = Sym(R, budget=budget, max_paths=100)
    x, eng = S.x, S.eng
    E = S.ld.load("lamberthub.utils.elements")
    f = getattr(E, "coe2rv", None)
    if f is None:
        R.note("function is gone")
        return
    k, sp, e = elements(S, con=con)
    an = {n: F.free_angle(x, n, -10, 10) for n in ("inc", "raan", "argp", "nu")}
    cs = {n: F.cossin(a) for n, a in an.items()}
    eng.base.append((x.const(1) + e * cs["nu"][0], ">"))
    mu, p_, r0, v0 = perifocal(x, k, sp, e, cs["nu"], cs["inc"], cs["raan"], cs["argp"])

    S.fallback(dict(mu=mu, p=p_, ecc=e, **an), kind="coe2rv")

    def fn():
        return f(mu, p_, e, an["inc"], an["raan"], an["argp"], an["nu"])

    def on_path(p):
        R.reached += 1
        und = []
        S.declare(dict(mu=mu, p=p_, ecc=e, **an), kind="coe2rv", ob="coe2rv")
        t_ = lambda z: und.append(1) if z is not True else None
        if p.outcome[0] != "return" or is_nan(p.outcome[1]):
            R.ob("returns a state", None)
            und = [1]
        else:
            rv = p.outcome[1]
            for i in range(3):
                t_(S.zero(f"position {'xyz'[i]}", I.tov(rv[0][i]) - r0[i]))
                t_(S.zero(f"velocity {'xyz'[i]}", I.tov(rv[1][i]) - v0[i]))
        R.sample({"conic": con, "path": [str(c[0])[:70] + c[1] for c in p.cons][:4]})
        if und:
            for c in S.case(dict(mu=mu, p=p_, ecc=e, **an), n=4, kind="coe2rv", ob="coe2rv"):
                R.cand(c)
    S.explore(fn, on_path)


def rot(R, budget, tier, axis):
    S = Sym(R, budget=budget, max_paths=100)
    x = S.x
    E = S.ld.load("lamberthub.utils.elements")
    f = getattr(E, "rotation_matrix", None)
    if f is None:
        R.note("function is gone")
        return
    a = F.free_angle(x, "angle", -10, 10)
    c, s = F.cossin(a)
    u = [x.const(1 if i == axis else 0) for i in range(3)]
    eps = {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}

    def want(i, j):
        w = u[i] * u[j] * (x.const(1) - c)
        if i == j:
            w = w + c
        for k in range(3):
            if (i, k, j) in eps:
                w = w + s * u[k] * eps[(i, k, j)]
        return w

    def on_path(p):
        R.reached += 1
        und = []
        ok = p.outcome[0] == "return" and not is_nan(p.outcome[1])
        for i in range(3):
            for j in range(3):
                z = S.zero(f"axis {axis} entry {i}{j}", I.tov(p.outcome[1][i][j]) - want(i, j)) if ok else None
                if not ok:
                    R.ob(f"axis {axis} entry {i}{j}", None)
                if z is not True:
                    for cse in S.case(dict(angle=a), n=2, kind="rotation", axis=axis, entry=[i, j], ob=f"{i}{j}"):
                        R.cand(cse)
        R.sample({"axis": axis})
    S.explore(lambda: f(a, axis), on_path)


def jobs(tier):
    b = 20 if tier == "quick" else 60
    return ([dict(name=f"state {c}", fn=state, budget=b, args=dict(con=c)) for c in ("circ", "ell", "par", "hyp")]
            + [dict(name=f"rotation {a}", fn=rot, budget=b, args=dict(axis=a)) for a in range(3)])
