"""C21: Near-parabolic regimes agree with the closed forms."""
from fractions import Fraction as Q
import math
import time
import numpy as np
from .common import TRUST, SOLVERS
from . import transfer as T, c16
from .. import funcs as F, interp as I, summ, series as SR
from ..diff import D
from ..harness import Sym
from ..engine import compare
from ..alg import V, Unsupported, vpowi

LEVEL = "other"
METHOD = ("The functions with a series (Gooding's time equation and its three derivatives, Izzo's hypergeometric sum, Arora's W and its derivatives, the Stumpff functions of de la Torre and Negrete) are executed "
          "symbolically on an arbitrary argument of the band in which they take that branch (z3 bounds the band from the path condition); sums run until an increment is divisible by a power of the argument that is below "
          "rounding. The polynomial they return must differ from the Taylor polynomial of the closed form, with its remainder, by less than 1e-11 (less for derivatives) everywhere in the band: z3, over the monomials. Where the closed form is "
          "used, it is compared with the differential equation that also the series is derived from. A solver that answers with an exact parabola may do so only if the time of flight is that of the parabola up to the "
          "stated tolerance: on every path of the solver whose orbit has zero energy, decided by z3. The other paths and the solvers as wholes are searched for differences with points next to the parabola, on both sides.")
BOUNDS = ("series: every argument of the band; q in (-1, 1); stop test acts at the power 40 of the argument of the series at the latest. Parabolas: every mu > 0, tof > 0 and pair of positions that are not collinear, in the plane of x and y; M = 0")
ASSUMPTIONS = TRUST + T.ASSUMES + ["the stop test of a series acts when an increment no longer changes the sum; what follows is smaller than the remainder that is checked"]
N = 40
SIZES = [Q(1, 10 ** 9), Q(1, 10 ** 8) * Q(100001, 100000), Q(1, 10 ** 4), Q(1, 100), Q(2001, 100000), Q(1, 20), Q(1, 10), Q(1, 4), Q(40001, 100000), Q(1, 2), Q(7, 10), Q(9, 10)]
NEAR = {"gooding1990": 1e-10, "izzo2015": 1e-10, "battin1984": 1e-10, "vallado2013": 1e-8, "arora2013": 1e-7, "delatorre2018": 1e-6, "negrete2024": 1e-6, "jiang2016": 1e-6, "thorne2004": 1e-6,
        "mcelreath2025": 1e-6, "gauss1809": 1e-6, "avanzini2008": 1e-4, "der2011": 1e-4, "pan2016": 1e-3}


def near(solver, n=None):
    """Transfers next to the parabola, on either side, with their exact time of flight."""
    out = []
    pts = [(0.9, 1.0), (1.3, 0.6), (2.2, 1.8), (2.8, 1.0), (3.6, 0.7), (4.5, 1.4), (5.4, 1.0), (0.5, 1.3)]
    xs = [0.44, 0.38, 0.31, 0.25, 0.18, 0.12, 0.07, 0.03, 0.018, 0.01, 3e-3, 1e-3, 1e-4, 1e-5, 1e-7]
    for i, (th, b) in enumerate(pts):
        c = math.sqrt(1 + b * b - 2 * b * math.cos(th))
        s = (1 + b + c) / 2
        for j, e in enumerate(xs):
            u = e * (1 if (i + j) % 2 else -1)
            pro = bool((i + j // 2) % 3)
            q = math.sqrt(b) / s * math.cos(th / 2) * (1 if pro else -1)
            a, L = 4.0, []
            for k in range(300):
                L.append(a / (2 * k + 3) * (1 - q ** (2 * k + 3)) * u ** k)
                a *= (k + 0.5) / (k + 1)
            out.append(dict(kind="solve", solver=solver, mu=1.0, r1=[1.0, 0.0, 0.0], r2=[b * math.cos(th), b * math.sin(th), 0.0], tof=math.fsum(L) * math.sqrt(s ** 3 / 8),
                            pro=pro, M=0, low=True, checks=["tof"], tight=True, toltof=NEAR[solver], ob="next to the parabola"))
    return out[:n]


def bound(R, S, name, v, bounds, tol):
    t = time.time()
    try:
        ok = SR.within(v, bounds, tol, S.x)
    except Unsupported as e:
        R.note(f"{name}: {e}")
        ok = False
    S.eng.stats.queries += 1
    S.eng.stats.time += time.time() - t
    S.eng.stats.unsat += 1 if ok else 0
    R.ob(name, True if ok else None)
    return ok


def numbers(S, g, n, *vs):
    SR.TP.x, SR.TP.g, SR.TP.N = S.x, SR.gen_of(g), n
    SR.install(S.ld)
    return [SR.TP.of(v) for v in vs]


def powers(t, n):
    out = [SR.TP.of(1)]
    for _ in range(n):
        out.append(out[-1] * t)
    return out


def sigma(k):
    """Taylor coefficients of 2 (asin sqrt u - sqrt(u (1 - u))) / u^(3/2)."""
    a = Q(4)
    for i in range(k):
        a = a * Q(2 * i + 1, 2 * i + 2)
    return a / (2 * k + 3)


def gooding(R, budget, tier, n, sign):
    S = Sym(R, budget=budget, max_paths=300, unroll=200)
    x, eng = S.x, S.eng
    f = getattr(S.ld.load("lamberthub.universal_solvers.gooding"), "tlamb", None)
    if f is None:
        R.note("function is gone")
        return
    u = x.var("u", -1, 1, sampler=lambda r, k: r.uniform(-0.6, 0.6, k))
    q = x.var("q", -1, 1, sampler=lambda r, k: r.uniform(-1, 1, k))
    x.add_nice(x.const(1) - q, x.const(1) + q, x.const(1) - u)
    X = F.vsqrt(x.const(1) - u)
    gu, gq = SR.gen_of(u), SR.gen_of(q)
    tq, tX, tu = numbers(S, u, N, q, X, u)
    one = SR.TP.of(1)
    K = N + 3
    pw = powers(tq, 2 * K + 2)
    pu = powers(tu, K)
    tru = [(one - pw[2 * k + 3]) * x.const(sigma(k)) for k in range(K)]

    def der(d):
        return sum((tru[k] * math.perm(k, d) * pu[k - d] for k in range(d, K)), SR.TP.of(0))

    def fn():
        return f(0, tq, one - tq * tq, tX, n)

    def on_path(p):
        if p.outcome[0] != "return":
            return
        t, dt, d2, d3 = [SR.TP.of(w) if i == 0 or i <= n else None for i, w in enumerate(p.outcome[1])]
        xs = one - tu
        t0 = t * xs
        R.reached += 1
        b = SR.band(S, u, SIZES)
        if b is None or b >= 1:
            R.ob("band of the series", None)
            return
        B = {gu: b, gq: Q(1)}
        # the remainder of the Taylor polynomial: its terms decrease at least like powers of the band
        def tail(d):
            return sigma(K) * 2 * math.perm(K, d) * b ** (K - d) / (1 - b * 2 ** min(d, 1)) if b < Q(1, 2) else None
        todo = [("time of flight", t0 - xs * der(0), Q(1, 10 ** 11), 0)]
        if n >= 1:
            todo.append(("first derivative", dt / tX + der(1) * 2, Q(1, 10 ** 9), 1))
        if n >= 2:
            todo.append(("second derivative", d2 + der(1) * 2 - xs * der(2) * 4, Q(1, 10 ** 8), 2))
        if n >= 3:
            todo.append(("third derivative", d3 / tX - der(2) * 12 + xs * der(3) * 8, Q(1, 10 ** 6), 3))
        for name, v, tol, d in todo:
            r = tail(d)
            if r is None or r * 20 > tol:
                R.ob(name, None)
            else:
                bound(R, S, name, v, B, tol - r * 20)
        R.sample({"function": "tlamb", "n": n, "path": [str(c[0])[:60] + c[1] for c in p.cons][:5]})
    if sign:
        eng.base.append((u * sign, ">"))
    S.explore(fn, on_path)


def izzo(R, budget, tier, part):
    S = Sym(R, budget=budget, max_paths=100, unroll=200)
    x, eng = S.x, S.eng
    M = S.ld.load("lamberthub.universal_solvers.izzo")
    one = x.const(1)
    if part == "series":
        f = getattr(M, "hyp2f1b", None)
        if f is None:
            R.note("function is gone")
            return
        u = x.var("s", -1, 1, sampler=lambda r, k: r.uniform(-0.4, 0.4, k))
        eng.base += [(u - Q(2, 5), "<="), (u + Q(2, 5), ">=")]
        gu = SR.gen_of(u)
        tu, = numbers(S, u, 45, u)
        c, cs = Q(1), []
        for k in range(46):
            cs.append(c)
            c = c * Q(3 + k) / (Q(5, 2) + k)
        ref = sum((w * x.const(a) for a, w in zip(cs, powers(tu, 46))), SR.TP.of(0))

        def on_path(p):
            if p.outcome[0] != "return":
                return
            R.reached += 1
            v = p.outcome[1]
            if not isinstance(v, SR.TP):
                R.ob("returns a number", None)
                return
            bound(R, S, "hypergeometric sum", v - ref, {gu: Q(2, 5)}, Q(1, 10 ** 12) - c * Q(2, 5) ** 46 * 2)
            R.sample({"function": "hyp2f1b", "path": [str(t[0])[:60] + t[1] for t in p.cons][:4]})
        S.explore(lambda: f(tu), on_path)
        return
    f = getattr(M, "_tof_equation_y", None)
    if f is None or not hasattr(M, "hyp2f1b"):
        R.note("function is gone")
        return
    # eta = y - ll x makes x and y rational
    l = x.var("l", 0, 1, sampler=lambda r, k: r.uniform(0.05, 0.95, k))
    ll = l if part == "equation +" else -l
    eta = x.var("eta", 0, sampler=lambda r, k: r.uniform(0.1, 2.5, k))
    x.add_nice(l, one - ll, one + ll, one - ll + eta, one - ll - eta, one + ll + eta, one + ll - eta)
    X = ((one - ll * ll) / eta - eta) / (ll * 2)
    y = ((one - ll * ll) / eta + eta) / 2
    eng.base.append((X + 1, ">"))
    eng.base.append((X - 1, "!="))
    G = x.var("F", sampler=lambda r, k: r.uniform(0.5, 2, k))
    arg = []

    def hyp(s):
        arg.append(I.tov(s))
        return G
    M.hyp2f1b = hyp

    def fn():
        del arg[:]
        return f(X, y, 0, ll, 0), list(arg)

    def on_path(p):
        if p.outcome[0] != "return":
            return
        t, a = I.tov(p.outcome[1][0]), p.outcome[1][1]
        if not isinstance(t, V):
            R.paths["not finite"] = R.paths.get("not finite", 0) + 1
            return
        if pinned(p, eta):
            R.paths["a single point"] = R.paths.get("a single point", 0) + 1
            return
        R.reached += 1
        ge, gG = SR.gen_of(eta), SR.gen_of(G)
        rates = {ge: one / D(x, {ge: one}).val(X)}
        if a:
            d0 = D(x, dict(rates))
            s = a[-1]
            # s (1 - s) F' + (3/2 - 3 s) F = 3/2
            rates[gG] = (x.const(Q(3, 2)) - (x.const(Q(3, 2)) - s * 3) * G) / (s * (one - s)) * d0.val(s)
        try:
            dt = D(x, rates).val(t)
        except Unsupported as e:
            R.note(str(e)[:80])
            R.ob("differential equation", None)
            return
        S.zero("differential equation of the time of flight" + (", with the series" if a else ""), (one - X * X) * dt - t * X * 3 + 2 - vpowi(ll, 3) * X / y * 2)
        if a:
            S.holds("argument of the series is small", compare(a[-1], x.const(Q(2, 5)), "<="), timeout=4000)
            S.holds("argument of the series is not far below zero", compare(a[-1], x.const(Q(-2, 5)), ">="), timeout=4000)
        R.sample({"function": "_tof_equation_y", "series": bool(a), "path": [str(c[0])[:60] + c[1] for c in p.cons][:5]})
    S.explore(fn, on_path)


def pinned(p, v):
    """Is this a path for one value of the argument only?"""
    return any(c[1] == "==" and set(c[0].f) & set(v.f) for c in p.cons) or any(c[1] == "==" for c in p.cons)


def arora(R, budget, tier, which, near):
    S = Sym(R, budget=budget, max_paths=100, unroll=50)
    x, eng = S.x, S.eng
    M = S.ld.load("lamberthub.universal_solvers.arora")
    f = getattr(M, which, None)
    if f is None:
        R.note("function is gone")
        return
    r2 = F.vsqrt(x.const(2))
    if near:
        v = x.var("v", -3, sampler=lambda r, k: r.uniform(-0.05, 0.05, k))
        k = r2 + v
    else:
        k = x.var("k", sampler=lambda r, n: np.concatenate([r.uniform(-1.4, 1.4, n - n // 2), np.exp(r.uniform(0.5, 3, n // 2))]))
        v = k - r2
        x.add_nice(r2 + k, r2 - k)
    W, Wp = x.var("W", sampler=lambda r, n: r.uniform(0.1, 2, n)), x.var("Wp", sampler=lambda r, n: r.uniform(-2, 2, n))
    gv, g2 = SR.gen_of(v if near else k), SR.gen_of(r2)
    w, ws = r2 / 3, []
    for i in range(16):
        ws.append(w)
        w = -w * Q(i + 3) / (r2 * (2 * (i + 1) + 3))
    d = {"_get_W": 0, "_get_Wprime": 1, "_get_W2prime": 2}[which]
    ref = sum((ws[i] * Q(math.perm(i, d)) * (vpowi(v, i - d) if i > d else x.const(1)) for i in range(d, 16)), x.const(0))
    SR.TP.x = x

    def fn():
        return f(k, 0) if d == 0 else f(k, W, 0) if d == 1 else f(k, W, Wp, 0)

    def on_path(p):
        if p.outcome[0] != "return":
            return
        t = I.tov(p.outcome[1])
        m = x.const(2) - k * k
        b = SR.band(S, v, SIZES)
        inside = b is not None and b <= Q(1, 20)
        if inside != near or not inside and pinned(p, k):
            R.paths["not of this part"] = R.paths.get("not of this part", 0) + 1
            return
        R.reached += 1
        if not inside:
            if d == 1:
                S.zero("differential equation", t * m - W * k * 3 + 2)
            elif d == 2:
                S.zero("differential equation", t * m - Wp * k * 5 - W * 3)
            else:
                try:
                    dt = D(x, {gv: x.const(1)}).val(t)
                    S.zero("differential equation", dt * m - t * k * 3 + 2)
                except Unsupported as e:
                    R.note(str(e)[:80])
                    R.ob("differential equation", None)
        else:
            bound(R, S, "polynomial", SR.TP.of(t - ref), {gv: b, g2: Q(3, 2)}, Q(1, 10 ** (12 - 2 * d)) - Q(1) * math.perm(16, d) * b ** (16 - d))
        R.sample({"function": which, "path": [str(c[0])[:60] + c[1] for c in p.cons][:5]})
    S.explore(fn, on_path)


def negrete(R, budget, tier, order):
    S = Sym(R, budget=budget, max_paths=100, unroll=50)
    x, eng = S.x, S.eng
    M = S.ld.load("lamberthub.universal_solvers.negrete")
    f = getattr(M, f"_c{order}", None)
    if f is None:
        R.note("function is gone")
        return
    z = x.var("z", sampler=lambda r, k: np.exp(r.uniform(-22, 3, k)) * r.choice([-1, 1], k))
    gz = SR.gen_of(z)
    ref = sum((vpowi(-z, k) * Q(1, math.factorial(2 * k + order)) if k else x.const(Q(1, math.factorial(order))) for k in range(25)), x.const(0))

    def on_path(p):
        if p.outcome[0] != "return":
            return
        t = p.outcome[1]
        t = I.tov(t.real if isinstance(t, I.CV) else t)
        b = SR.band(S, z, SIZES)
        if b is None:
            R.paths["closed form"] = R.paths.get("closed form", 0) + 1
            return
        R.reached += 1
        SR.TP.x = x
        bound(R, S, "polynomial", SR.TP.of(t - ref), {gz: b}, Q(1, 10 ** 12))
        R.sample({"function": f"_c{order}", "path": [str(c[0])[:60] + c[1] for c in p.cons][:5]})
    S.explore(lambda: f(z), on_path)


def parabola(R, budget, tier, solver, pro, table):
    pts = near(solver)
    tol = NEAR[solver]

    def on_return(S, p, v1, v2):
        e = T.dot(v1, v1) * S.R1 - S.mu * 2
        if not S.eng.is_zero(e):
            R.paths["not a parabola"] = R.paths.get("not a parabola", 0) + 1
            return False
        ch = F.vsqrt(T.dot([b - a for a, b in zip(S.r1, S.r2)], [b - a for a, b in zip(S.r1, S.r2)]))
        m, n = S.R1 + S.R2 + ch, S.R1 + S.R2 - ch
        sm, sn = F.vsqrt(m), F.vsqrt(n)
        tp = (sm * m - sn * n * (1 if pro else -1)) / (S.k * 6)
        w = S.tof - tp
        # a test of the user's tolerances that was met: their size is not part of the claim
        gt = SR.gen_of(S.tof)
        for e, im, _ in p.accepts:
            if im is None and e.f:
                try:
                    a = D(S.x, {gt: S.x.const(1)}).val(e)
                    if a.c and S.eng.is_zero(e - a * w):
                        R.ob("a parabola is returned for its own time of flight only", True)
                        return False
                except Unsupported:
                    pass
        tt = Q(tol).limit_denominator(10 ** 10)
        rs = [S.holds("a parabola is returned for its own time of flight only", compare(w * sg, tp * tt, "<="), timeout=3000) for sg in (1, -1)]
        return any(r is not True for r in rs)
    P = T.Problem(R, budget, solver, table, pro=pro, M=0, checks=("tof",), toltof=tol)
    P.strata = lambda: []
    try:
        P.refine(on_return, rounds=3)
    finally:
        R.cands += [c for c in pts if c["pro"] == pro]
    if not R.obs:
        R.note("no path with an exact parabola")


def jobs(tier):
    b = 40 if tier == "quick" else 200
    tb = summ.tables(tuple(NEAR))
    out = [dict(name=f"gooding tlamb n={n}", fn=gooding, budget=b, args=dict(n=n, sign=0)) for n in (0, 3)]
    out += [dict(name=f"izzo {s}", fn=izzo, budget=b, args=dict(part=s)) for s in ("series", "equation +", "equation -")]
    out += [dict(name=f"arora {s} {'polynomial' if nr else 'closed'}", fn=arora, budget=b, args=dict(which=s, near=nr)) for s in ("_get_W", "_get_Wprime", "_get_W2prime") for nr in (True, False)]
    out += [dict(name=f"de la Torre stumpff{n} {'-0+'[s + 1]}", fn=c16.job, budget=b, args=dict(name=f"_stumpff{n}", side=s, module="regularization.delatorre", n0=n, TOL=Q(3, 10 ** 7), limit=3e-7))
            for n in range(4) for s in (1, -1, 0)]
    out += [dict(name=f"negrete c{s}", fn=negrete, budget=b, args=dict(order=s)) for s in (2, 3)]
    out += [dict(name=f"{s} parabola {'pro' if pro else 'retro'}", fn=parabola, budget=12 if tier == "quick" else 100, args=dict(solver=s, pro=pro, table=tb.get(s, {}).get(0, {})))
            for s in NEAR for pro in (True, False)]
    return out
