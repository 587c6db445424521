"""Time of flight: the residual that a solver drives to zero against Kepler's equation on the conic it returns."""
from fractions import Fraction
import numpy as np

from .. import alg as A
from .. import engine as EN
from .. import funcs as F
from .. import interp as I
from .. import poly as P
from ..alg import V, Unsupported
from ..engine import compare, SymBool
from . import transfer as T

LIMIT = 6000


def gens(v):
    return {i for f in v.f for i in v.x.fgens[f]}


class NotLinear(Exception):
    pass


def reach(eng, i, what, memo, roots=False):
    """Does generator i (which may be a name) lead to one of those sought?"""
    if i not in memo:
        g = eng.x.gens[i]
        d = g.info["def"] if g.kind == "let" else g.relV if roots and g.kind == "root" else None
        memo[i] = what(g) or d is not None and any(reach(eng, j, what, memo, roots) for j in gens(d))
    return memo[i]


def linear(eng, v, what, memo=None, done=None):
    """v as ({generator sought: coefficient}, rest), following names; the coefficients and the rest do not mention those generators."""
    x = v.x
    memo = {} if memo is None else memo
    done = {} if done is None else done
    hit = [f for f in v.f if any(reach(eng, i, what, memo) for i in x.fgens[f])]
    if not hit:
        return {}, v
    if len(hit) > 1 or v.f[hit[0]] != 1:
        raise NotLinear()
    out = V(x, v.c, {f: e for f, e in v.f.items() if f != hit[0]})
    poly = x.factors[hit[0]]
    ts = [i for i in x.fgens[hit[0]] if reach(eng, i, what, memo)]
    at, rest = {}, {}
    for i in ts:
        if P.degree(poly, i) != 1:
            raise NotLinear()
        cs = P.coeffs(poly, i)[1]
        if any(j in ts for j in P.gens_of(cs)):
            raise NotLinear()
        c, f = x.split(cs)
        co = V(x, Fraction(c), f)
        g = x.gens[i]
        if what(g):
            at[i] = at[i] + co if i in at else co
        else:
            if i not in done:
                done[i] = linear(eng, g.info["def"], what, memo, done)
            d, r = done[i]
            for j, w in d.items():
                at[j] = at[j] + co * w if j in at else co * w
            rest = rest + co * r if rest else co * r
    own = {m: c for m, c in poly.items() if not any((m >> (P.W * i)) & P.MASK for i in ts)}
    if own:
        c, f = x.split(own)
        own = V(x, Fraction(c), f)
        rest = rest + own if rest else own
    if not isinstance(rest, V):
        rest = x.const(0)
    return {j: w * out for j, w in at.items()}, rest * out


def mentions(eng, fid, i):
    return eng.depends(eng.x.factors[fid], i)


def residual(S, p):
    """Time of flight for which the last met convergence test has a vanishing residual."""
    eng, x = S.eng, S.x
    i = x.fgens[next(iter(S.tof.f))][0]
    tofs = lambda g: g.i == i or g.kind == "angle" and mentions(eng, x.gfid[g.i], i)
    for e, im in [t[:2] for t in reversed(p.accepts)] + [(c[0], None) for c in reversed(p.cons) if c[1] == "=="]:
        if im is not None:
            continue
        for level in range(4):
            for fid, k in sorted(e.f.items(), key=lambda t: (len(x.factors[t[0]]), t[0])):
                if k <= 0 or not mentions(eng, fid, i):
                    continue
                v = V(x, A.ONEF, {fid: 1})
                t = solve(eng, v, i)
                if t is None:
                    # the logarithm of the time
                    try:
                        at, r = linear(eng, v, lambda g: g.kind == "angle" and g.info["type"] == "hyp" and mentions(eng, x.gfid[g.i], i))
                        if at:
                            w = F.vexp(sum((x.gv(x.gens[j]) * w for j, w in at.items()), r))
                            t = solve(eng, w - 1, i) if isinstance(w, V) else None
                    except (NotLinear, Unsupported):
                        t = None
                if t is not None:
                    return i, t, fid
            # open the names that lead to the time
            n = x.const(e.c)
            memo, more = {}, False
            with effort():
                for fid, k in e.f.items():
                    lets = {j: x.gens[j].info["def"] for j in x.fgens[fid] if k > 0 and x.gens[j].kind == "let" and reach(eng, j, tofs, memo)}
                    more = more or bool(lets)
                    n = A.vmul(n, A.vpowi(eng.subst_poly(x.factors[fid], lets), k) if lets else V(x, A.ONEF, {fid: k}))
            if not more or not n.c:
                break
            e = n
    return None


def solve(eng, v, i):
    """The value of generator i for which v vanishes, if v is linear in it."""
    try:
        at, r = linear(eng, v, lambda g: g.i == i)
    except NotLinear:
        return None
    if i not in at or any(eng.depends(eng.x.factors[f], i) for t in (at[i], r) for f in t.f):
        return None
    return -(r / at[i])


def guess(S, v, dens=(1, 2, 3, 4)):
    """The rational number the value has at the samples, if it has the same everywhere."""
    p = S.eng.path
    a = v.num()
    m = np.isfinite(a.real) & (np.abs(a.imag) < 1e-6)
    if p.mask is not None and np.any(m & p.mask):
        m &= p.mask
    if not np.any(m):
        return None
    t = float(np.median(a.real[m]))
    if abs(t) > 100:
        return None
    for d in dens:
        if abs(t * d - round(t * d)) < 1e-6:
            return Fraction(round(t * d), d)
    return None


def timing(S, p, v1, v2, M):
    """What has to vanish or hold for the time of flight to be that of the returned conic; runs while the path is followed."""
    eng, x = S.eng, S.x
    r1, r2, mu, k = S.r1, S.r2, S.mu, S.k
    ti = x.fgens[next(iter(S.tof.f))][0]
    res = residual(S, p)
    if res is None:
        return dict(why="no residual with the time of flight found")
    i, t, fid = res
    for e, im, tol in p.accepts:
        if not M and im is None and fid not in e.f and e.f and not any(eng.depends(x.factors[f], i) for f in e.f):
            return dict(why="a special case within rounding")
    tab = {i: t}
    if len(x.factors[fid]) == 1 and x.gens[x.fgens[fid][0]].kind == "let":
        tab[x.fgens[fid][0]] = x.const(0)       # the residual itself
    eng.assume(compare(V(x, A.ONEF, {fid: 1}), x.const(0), "=="))
    x.subst = {}
    with effort():
        v1, v2 = [sub(eng, a, tab) for a in v1], [sub(eng, a, tab) for a in v2]
    x.subst.update(tab)
    x.invalidate()
    eng.remask()
    if not all(isinstance(t, V) for t in (*v1, *v2)):
        return dict(why="the velocities are not real where the residual vanishes")
    h = I.np_cross(r1, v1)[2]
    s1, s2 = T.dot(r1, v1) / k, T.dot(r2, v2) / k
    al = 2 / S.R1 - T.dot(v1, v1) / mu
    f = I.np_cross(r2, v1)[2] / h
    fd = I.np_cross(v2, v1)[2] / h
    if not al.c or eng.is_zero(al):
        d = s2 - s1
        return dict(kind="parabola", zero=[k * t - S.R1 * d - s1 * d * d / 2 - d * d * d / 6])
    ell = x.branch_cmp(al, ">")
    n = al if ell else -al
    q = F.vsqrt(n)
    if ell:
        th = k * n * q * t + (s2 - s1) * q
        c, s = 1 - n * S.R1 * (1 - f), -fd * S.R1 * S.R2 * q / k
    else:
        th = (s2 - s1) * q - k * n * q * t
        c, s = 1 + n * S.R1 * (1 - f), -fd * S.R1 * S.R2 * q / k
    if not isinstance(th, V):
        return dict(why="the velocities are not real where the residual vanishes")
    free = bases(eng, "circ" if ell else "hyp")
    for fr in ([free] if free else []) + [{}]:
        try:
            at, rest = linear(eng, th, lambda g: g.kind in ("angle", "pi") or g.i in fr)
            break
        except NotLinear:
            at = None
    if at is None:
        return dict(why="the time is not linear in the angles")
    zero, ang = [rest], x.const(0)
    for j, co in at.items():
        unit = x.const(1)
        if j in fr:
            unit = fr[j] / x.gv(x.gens[j])
        g = guess(S, co / unit, (1, 2, 3, 4, 8))
        if g is None:
            return dict(why="coefficient of an angle", zero=zero, bad=True)
        zero.append(co - unit * g)
        ang = ang + x.gv(x.gens[j]) * unit * g
    out = dict(kind="ellipse" if ell else "hyperbola", zero=zero, angle=ang)
    cc, ss = F.cossin(ang, "circ" if ell else "hyp")
    out["turn"] = [cc - c, ss - s] if ell else [ss - s]
    if ell:
        tp = 2 * x.pi()
        monotone(eng, [j for j in at if x.gens[j].kind == "angle"])
        out["range"] = [compare(ang, tp * M, ">="), compare(ang, tp * (M + 1), "<=")]
    return out


def bases(eng, kind):
    """{generator: argument} of the cosines and sines taken of a multiple of a generator that is no angle by itself."""
    x = eng.x
    out = {}
    for k, g in list(x.keyed.items()):
        if not (isinstance(k, tuple) and k[0] == "angle" and g.kind == "argangle" and g.info["type"] == kind):
            continue
        f = k[1][1][1]
        f = dict(f) if not isinstance(f, dict) else f
        own = [t for t in f if len(x.factors[t]) == 1 and x.gens[x.fgens[t][0]].n != 0 and reach_var(eng, x.fgens[t][0])]
        if len(own) == 1 and f[own[0]] == 1 and len(x.fgens[own[0]]) == 1:
            out[x.fgens[own[0]][0]] = V(x, A.ONEF, f)
    return out


def reach_var(eng, i):
    return reach(eng, i, lambda g: g.kind == "var", {}, True)


def monotone(eng, ids):
    """Arc sines and arc cosines are in the order of, or opposite to, what they are taken of."""
    x = eng.x
    for n, i in enumerate(ids):
        for j in ids[:n]:
            a, b = x.gens[i], x.gens[j]
            if any(g.info["type"] != "circ" or g.lo is None or g.hi is None for g in (a, b)):
                continue
            if min(a.lo, b.lo) >= -np.pi / 2 - 1e-9 and max(a.hi, b.hi) <= np.pi / 2 + 1e-9:
                d = a.info["s"] - b.info["s"]
            elif min(a.lo, b.lo) >= -1e-9 and max(a.hi, b.hi) <= np.pi + 1e-9:
                d = b.info["c"] - a.info["c"]
            else:
                continue
            for op, no in ((">=", "<"), ("<=", ">")):
                sb = compare(d, x.const(0), no)
                if sb is False or not isinstance(sb, bool) and eng.check([sb], timeout=2000) is False:
                    eng.assume(compare(x.gv(a), x.gv(b), op))
                    break


class effort:
    """Larger sums are kept in one piece."""

    def __init__(self, n=400, prod=400_000):
        self.new = n, prod

    def __enter__(self):
        x = EN.E.x
        self.old = A.MAXTERMS, x.maxprod
        A.MAXTERMS, x.maxprod = self.new

    def __exit__(self, *a):
        A.MAXTERMS, EN.E.x.maxprod = self.old


def sub(eng, v, tab, deep=None):
    """The value with generators replaced: where they occur openly, then in names too if they are still met."""
    x = v.x
    memo, done = {}, {}
    want = lambda g: g.i in tab
    if deep is None:
        v = sub(eng, v, tab, False)
        if not any(reach(eng, i, want, memo, True) for i in gens(v)):
            return v
        deep = True

    def new(i):
        if i not in done:
            g = x.gens[i]
            done[i] = tab[i] if i in tab else sub(eng, g.info["def"], tab, True) if g.kind == "let" else F.vpow(sub(eng, g.relV, tab, deep), Fraction(1, g.n))
        return done[i]

    def open_(i):
        g = x.gens[i]
        if i in tab:
            return True
        if g.kind == "root":
            return any((reach(eng, j, want, memo, True) if deep else j in tab) for j in gens(g.relV))
        return deep and reach(eng, i, want, memo, True)
    out = x.const(v.c)
    for fid, e in v.f.items():
        hit = [i for i in x.fgens[fid] if open_(i)]
        if hit:
            t = eng.subst_poly(x.factors[fid], {i: new(i) for i in hit})
            if not t.c:
                if e > 0:
                    return t
                raise Unsupported("division by the residual")
            out = A.vmul(out, A.vpowi(t, e))
        else:
            out = A.vmul(out, V(x, A.ONEF, {fid: e}))
    return out
