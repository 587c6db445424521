"""Runs of the solvers on symbolic transfer problems, and what must hold for the velocities they return."""
import math
import os
import time
import numpy as np

from .common import SOLVERS, MULTI
from ..harness import Sym, is_nan
from ..engine import compare
from .. import interp as I


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def kepler_time(mu, r1, v1, r2, M=0):
    """Time to go from r1 to the direction of r2 along the orbit of (r1, v1), in its own sense, with M extra revolutions."""
    r1, v1, r2 = (np.asarray(t, float) for t in (r1, v1, r2))
    h = np.cross(r1, v1)
    hn = np.linalg.norm(h)
    if not hn > 0:
        return None
    n1 = np.linalg.norm(r1)
    w = h / hn
    th = math.atan2(w @ np.cross(r1, r2), r1 @ r2) % (2 * math.pi)
    ev = np.cross(v1, h) / mu - r1 / n1
    e = np.linalg.norm(ev)
    p = hn * hn / mu
    nu1 = math.atan2(w @ np.cross(ev, r1), ev @ r1) if e > 1e-12 else 0.0
    nu2 = nu1 + th
    g = math.sqrt(abs(e - 1) / (1 + e))
    w1, w2 = math.tan(nu1 / 2), math.tan(nu2 / 2)
    if e < 1 and (M or abs(nu2) >= math.pi or g * max(abs(w1), abs(w2)) > 0.5):
        def mean(nu):
            k = round(nu / (2 * math.pi))
            E = 2 * math.atan(g * math.tan((nu - 2 * math.pi * k) / 2)) + 2 * math.pi * k
            return E - e * math.sin(E)
        return (mean(nu2) - mean(nu1) + 2 * math.pi * M) * math.sqrt((p / (1 - e * e)) ** 3 / mu)
    if M or abs(nu2) >= math.pi or e >= 1 and g * max(abs(w1), abs(w2)) >= 1:
        return None
    if g * max(abs(w1), abs(w2)) > 0.5:
        def mean(w):
            F = 2 * math.atanh(g * w)
            return e * math.sinh(F) - F
        return (mean(w2) - mean(w1)) * math.sqrt((p / (e * e - 1)) ** 3 / mu)
    x, u = np.polynomial.legendre.leggauss(60)
    w = (w2 - w1) / 2 * x + (w1 + w2) / 2
    return float(p ** 1.5 / math.sqrt(mu) * (w2 - w1) * np.sum(u * (1 + w * w) / (1 + e + (1 - e) * w * w) ** 2))


def tmin(s, d, M, sign):
    """About the shortest time of flight with M revolutions, for mu = 1; s and d are the sum of the radii plus and minus the chord."""
    x = np.linspace(-0.98, 0.98, 4001)
    y = sign * np.sqrt(1 - d / s * (1 - x * x))
    t = (np.arccos(x) - np.where(y >= 0, np.arccos(np.abs(y)), -np.arccos(np.abs(y))) - x * np.sqrt(1 - x * x) + y * np.sqrt(np.maximum(0, 1 - y * y)) + M * math.pi) / (1 - x * x) ** 1.5
    i = int(np.argmin(t))
    i = min(max(i, 1), len(x) - 2)
    a, b, c = t[i - 1:i + 2]
    return (b - (c - a) ** 2 / (8 * (a - 2 * b + c))) * s ** 1.5 / 4


LEFT_OPEN = ("A function of the solver that iterates is first left out: any result of the shape it really returns takes its place, so that what is shown holds for "
             "every value its iteration may end with, converged or not. Where that leaves an obligation undecided, the function is followed as well, its loops "
             "replaced by one iteration from an arbitrary state.")
BOUNDS = ("every mu > 0, tof > 0 and pair of positions that are not collinear and lie in the plane of x and y, in both senses (C04 and C05 carry this over to other "
          "planes and directions); M in {0, 1, 2}; any number of iterations; lists returned by functions left out hold at most 2 items; number of paths as in the evidence")
ASSUMES = ["velocities that are not finite are not judged here: no claim about paths where the code leaves the domain of a root or logarithm",
           "the root finders of scipy return some real number, or raise", "a solver called by another one is assumed to return a conic through the positions it was given in "
           "the sense requested, which its own check decides"]


# hundreds of samples of concrete numbers: never followed
STAY = {"_get_omega_brackets"}


class Undecided(BaseException):
    pass


STRATA = [(0.4, 0.35), (0.4, 1.0), (math.pi / 2, 1.7), (1.1, 0.8), (1.9, 5.0), (2.0, 1.0), (2.7, 0.5), (2.9, 1.3), (3.5, 0.7), (3.9, 1.0), (3 * math.pi / 2, 2.2), (4.4, 0.2),
          (5.2, 1.4), (5.8, 0.6), (0.15, 1.05), (6.0, 1.1), (1.37, 1.003), (4.0, 0.997)]


UNITS = [(1.0, 1.0), (2.5, 1.6), (398600.4418, 7000.0), (1.0, 1.0), (1e-4, 0.03), (1.32712440018e20, 1.5e11), (1.0, 1.0)]
# relative error of the position reached allowed at these points: a hundred times the largest found (default 2e-6)
STRATUM_TOL = {("der2011", 0): 3e-5, ("der2011", 1): 5e-3, ("negrete2024", 0): 5e-6, ("negrete2024", 1): 5e-4, ("pan2016", 0): 5e-5}


class Level:
    """One exploration: its report fields."""
    KEYS = ("obs", "samples", "paths", "complete", "reached")

    def __init__(self, R, S):
        self.d = {k: getattr(R, k) for k in self.KEYS}
        und = sum(v[1] + v[2] for v in R.obs.values())
        ok = sum(v[0] for v in R.obs.values())
        unf = R.paths.get("unsupported", 0)
        self.done = bool(ok and not und and R.complete and not unf)
        self.score = (self.done, ok - und - unf, ok)
        self.summarised = S.summarised


class Problem:
    def __init__(self, R, budget, solver, table, pro=True, M=0, frame="planar", fargs=None, checks=("conic",), prefix="", low=None, **extra):
        self.__dict__.update(R=R, budget=budget, solver=solver, table=table, pro=pro, M=M, frame=frame, fargs=fargs or {}, low=low,
                             checks=checks, prefix=prefix, extra=extra)

    def explore(self, on_return, table, budget, max_paths=None, exhausted=True, inside=None, forget=False):
        R = self.R
        self.end = getattr(self, "end", time.time() + budget)
        S = Sym(R, budget=budget, max_paths=max_paths or (400 if budget < 60 else 3000))
        x, eng = S.x, S.eng
        eng.skip_exhausted, eng.skip_failures, eng.report_all = not exhausted, True, True
        eng.mixed = inside is not None
        eng.summaries = dict(table)
        S.summarised, S.suspects, S.weak, self.roots = set(), [], [], []

        def suspect(p):
            q = [t for t in p.summarised if table[t][0] != "lambert"]
            q = [t for t in q if t.rpartition(".")[2] not in STAY and t not in p.looped]
            # where a series was left out, as well, that is more likely to be why; a path without samples may be one that is never taken
            to = S.weak if not np.any(p.mask) or p.looped and not (p.inside or {}).get("why", "").startswith("no residual") else S.suspects
            if q and q[-1] not in to:
                to.append(q[-1])
        getattr(S, self.frame)(**self.fargs)
        f = getattr(S.mod, self.solver)
        eng.forget_tof = x.fgens[next(iter(S.tof.f))][0] if inside is not None and not os.environ.get("LH_NODEEP") else None
        eng.forget = x.fgens[next(iter(S.tof.f))][0] if forget else None
        tl = S.tols()
        inp = dict(mu=S.mu, r1=S.r1, r2=S.r2, tof=S.tof)
        ext = dict(kind="solve", solver=self.solver, pro=self.pro, M=self.M, low=True, checks=list(self.checks), tight=True, **self.extra)
        S.fallback(inp, **ext)

        tofgen = x.fgens[next(iter(S.tof.f))][0]

        def fn():
            p = eng.path
            p.low = True if not self.M else bool(eng.choice(2, "low path")) if self.low is None else self.low
            p.inside = None
            o = f(S.mu, S.r1, S.r2, S.tof, M=self.M, is_prograde=self.pro, is_low_path=p.low, **tl)
            if inside is not None and not is_nan(o[0]) and not is_nan(o[1]):
                p.inside = inside(S, p, [I.tov(t) for t in o[0]], [I.tov(t) for t in o[1]])
            return o

        def on_path(p):
            S.summarised |= set(p.summarised)
            o = p.outcome
            e2 = {**ext, "low": p.low}
            if o[0] != "return":
                if o[0] == "unsupported" and o[1] != "budget":
                    suspect(p)
                    if S.suspects and self.end - time.time() > 0.3 * self.budget:
                        raise Undecided()
                if o[0] == "raise" and not isinstance(o[1], (ValueError, RuntimeError)):
                    R.ob(self.prefix + "no other exception", None)
                    suspect(p)
                    R.note("raises " + repr(o[1])[:80])
                    for c in S.case(inp, n=3, ob="exception", **e2):
                        R.cand(c)
                return
            if not np.any(p.mask) and S.dead(1500):
                R.paths["infeasible"] = R.paths.get("infeasible", 0) + 1
                return
            v1, v2 = o[1][:2]
            R.reached += 1
            S.declare(inp, **e2, ob="model")
            S.cex_left = 0 if p.looped else 1 if any(table[t][0] != "lambert" for t in p.summarised) else 4
            if is_nan(v1) or is_nan(v2):
                # a value outside of the domain of what follows: no velocities, no claim
                R.paths["not finite"] = R.paths.get("not finite", 0) + 1
                und = None
            else:
                v1, v2 = [I.tov(t) for t in v1], [I.tov(t) for t in v2]
                inp2 = {**inp, "v1": v1}
                S.declare(inp2, **e2, ob="model")
                und = on_return(S, p, v1, v2)
                R.cands[:] = [self.rooted(c) for c in R.cands]
            R.sample({"solver": self.solver, "prograde": self.pro, "M": self.M, "left open": sorted(p.summarised), "path": [str(c[0])[:60] + c[1] for c in p.cons][:5]})
            if und:
                suspect(p)
            if und is not False:
                n = 0
                if und:
                    # on the very spot of a special case
                    for e, im, tol in p.accepts[-3:]:
                        if im is None and e.f and not any(S.eng.depends(S.x.factors[f], tofgen) for f in e.f):
                            c = S.model_case(inp2, [compare(e, S.x.const(0), "==")])
                            if c is not None:
                                R.cand(self.rooted({**c, **e2, "model": True, "ob": "special case"}), limit=12)
                for c in S.case(inp if und is None else inp2, n=3 if und is None else 24, ob="sampled", **e2):
                    c = self.rooted(c)
                    if n < 3:
                        R.cand(dict(c))
                    n += 1
            for c in self.roots:
                R.cand(c, limit=12)
            self.roots = []
            if S.suspects and self.end - time.time() > 0.3 * self.budget:
                # this much was left open that it cannot be decided: no need to go on
                raise Undecided()
        try:
            S.explore(fn, on_path)
        except Undecided:
            R.complete = False
            S.finish()
        return S

    def rooted(self, c):
        """The candidate without its velocity; the time of flight which that velocity is the solution of makes another one."""
        if "v1" not in c:
            return c
        c = dict(c)
        w = c.pop("v1")
        t = kepler_time(c["mu"], c["r1"], w, c["r2"], self.M)
        if t and math.isfinite(t) and t > 0:
            self.roots.append({**c, "tof": t, "ob": "root of " + c.get("ob", "sample")})
        return c

    def strata(self, M=None):
        """Points of all parts of the precondition, replayed where something is left undecided: they may refute, never discharge."""
        M = self.M if M is None else M
        ext = dict(kind="solve", solver=self.solver, pro=self.pro, M=M, checks=list(self.checks), tight=True, any=True, **self.extra)
        ext.setdefault("toltof", STRATUM_TOL.get((self.solver, min(M, 1)), 2e-6))
        out = []
        for i, (th, q) in enumerate(STRATA):
            c = math.sqrt(1 + q * q - 2 * q * math.cos(th))
            s, d = 1 + q + c, 1 + q - c
            tm = 2 * math.pi * math.sqrt((s / 4) ** 3)
            tp = (s ** 1.5 - math.copysign(d ** 1.5, math.sin(th if self.pro else -th))) / 6
            if not M:
                # pan2016 takes what is within 1e-5 of the parabola for one
                ts = [tp * t for t in (0.2, 0.6, 0.97, 0.99, 0.997, 1 - 1e-3, 1 - 1e-4, 1 + 1e-4, 1 + 1e-3, 1.003, 1.01, 1.03) if abs(t - 1) > 2e-4 or self.solver != "pan2016"] + [tm * t for t in (0.0015, 0.005, 0.02, 0.4, 0.55, 1.3, 7, 60, 400, 2000)]
                if abs(q - 1) < 0.01:
                    ts.append((th if self.pro else 2 * math.pi - th) * (0.5 + 0.5 * q) ** 1.5)     # on a circle, or nearly
            else:
                t0 = tmin(s, d, M, math.copysign(1, math.sin(th if self.pro else -th)))
                ts = [tm * (M + t) for t in (-0.3, 0.4, 1.1, 5, 20, 100, 1500, 30000)] + [t0 * t for t in (0.98, 1 + 1e-5, 1 + 1e-3, 1.02, 1.15)]
            ts = ts[i % 2::2] if abs(q - 1) > 0.01 or M else ts
            for j, t in enumerate(ts):
                low = True if not M else bool((i + j) % 2) if self.low is None else self.low
                if self.pro is None:
                    break
                mu, a = UNITS[(i + j) % len(UNITS)]
                # every other triangle is turned out of the reference plane
                turn, tilt = (0.4, 0.7) if i % 2 else (0.0, 0.0)
                r1, r2 = ([h * math.cos(w + turn), h * math.sin(w + turn) * math.cos(tilt), h * math.sin(w + turn) * math.sin(tilt)] for h, w in ((a, 0.0), (a * q, th)))
                c = dict(mu=mu, r1=r1, r2=r2, tof=t * math.sqrt(a ** 3 / mu), low=low, ob="stratum", **ext)
                if t < 0.015 * tm:
                    # fast ones lose digits
                    c["toltof"] = max(c["toltof"], 2e-3)
                out.append(c)
        return out

    def refine(self, on_return, rounds=10, **kw):
        """Leave functions out as long as that decides everything; follow those that undecided paths went through otherwise.

        The best exploration is reported; the candidates of all of them are kept."""
        R = self.R
        self.end = end = time.time() + self.budget
        best, cands = None, []
        table = dict(self.table)
        forget = False
        try:
            for i in range(rounds):
                left = end - time.time()
                if i and left < 0.1 * self.budget:
                    break
                R.cands = []
                S = self.explore(on_return, table, left * (0.5 if "inside" in kw and not forget else 1), forget=forget, **kw)
                cands.append(R.cands)
                L = Level(R, S)
                if not S.suspects and not any(v[0] for v in R.obs.values()):
                    S.suspects = S.weak
                if os.environ.get("LH_DEBUG"):
                    print(self.solver, self.pro, self.M, f"{time.time() - end + self.budget:.1f}s", R.paths, dict(R.obs), R.complete, "out:", sorted(t.rpartition(".")[2] for t in S.summarised), "suspects:", [t.rpartition(".")[2] for t in S.suspects], R.notes[-3:], flush=True)
                if best is None or L.score > best.score:
                    best = L
                if L.done:
                    break
                if all(t.rpartition(".")[2] in STAY for t in S.suspects):
                    if forget or "inside" not in kw or end - time.time() < 0.35 * self.budget:
                        break
                    forget = True
                for q in S.suspects:
                    if q.rpartition(".")[2] not in STAY:
                        table.pop(q, None)
        finally:
            # also when the time is over
            if not cands or cands[-1] is not R.cands:
                cands.append(R.cands)
            cands.reverse()
            R.cands = [t[i] for i in range(max(map(len, cands))) for t in cands if i < len(t)][:40]
            if best is None or not best.done:
                R.cands += self.strata()
            if self.M == 2:
                # more revolutions are outside the bound: searched only
                R.cands += self.strata(3)[::4] + self.strata(6)[1::4]
            if best is not None:
                for k, v in best.d.items():
                    setattr(R, k, v)
                R.note("left open (any result): " + (", ".join(sorted(t.rpartition(".")[2] for t in best.summarised)) or "nothing"))
        return best


def conic(S, v1, v2):
    """Angular momenta and eccentricity vectors of the two states."""
    r1, r2, mu = S.r1, S.r2, S.mu
    h1, h2 = I.np_cross(r1, v1), I.np_cross(r2, v2)
    e1 = [a / mu - b / S.R1 for a, b in zip(I.np_cross(v1, h1), r1)]
    e2 = [a / mu - b / S.R2 for a, b in zip(I.np_cross(v2, h2), r2)]
    return h1, h2, e1, e2
