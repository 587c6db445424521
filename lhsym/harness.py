"""What every check shares: symbolic problems, obligations, and candidates for the replay."""
import time
from fractions import Fraction
import warnings
import numpy as np
import z3

from . import alg as A
from . import engine as EN
from . import funcs as F
from . import interp as I
from .alg import V, Ctx, Unsupported
from .engine import SymBool, PathCut, Budget, compare


warnings.simplefilter("ignore")


class JobTimeout(BaseException):
    pass


class Report:
    """The outcome of one job (plain data)."""

    def __init__(self, job):
        self.job = job
        self.clear()
        self.stats = {}
        self.functions = set()
        self.error = None
        self.wall = 0.0

    def clear(self):
        self.obs = {}
        self.cands = []
        self.samples = []
        self.notes = []
        self.paths = {}
        self.complete = None
        self.reached = 0

    def ob(self, name, status):
        """status: True proved, False refuted (a candidate exists), None undecided."""
        o = self.obs.setdefault(name, [0, 0, 0])
        o[0 if status is True else 1 if status is None else 2] += 1

    def note(self, s):
        if len(self.notes) < 40 and s not in self.notes:
            self.notes.append(s)

    def sample(self, d):
        if len(self.samples) < 3:
            self.samples.append(d)

    def cand(self, case, limit=6):
        k = case.get("ob")
        if sum(1 for c in self.cands if c.get("ob") == k) < limit:
            self.cands.append(case)


class Sym:
    """A symbolic problem: context, engine and freshly loaded sources."""

    def __init__(self, R, budget=15.0, max_paths=2000, seed=1, npts=None, load=True, unroll=3, rlimit=100_000):
        self.R = R
        self.x = x = Ctx(seed, npts) if npts else Ctx(seed)
        self.decl = self.fb = None
        F.init(x)
        self.eng = eng = EN.Engine(x, max_paths=max_paths, budget_s=budget, unroll=unroll, rlimit=rlimit)
        EN.E = eng
        eng.skip_exhausted = eng.skip_failures = True
        eng.on_restart = R.clear
        self.ld = I.Loader()
        I.LH.entered = R.functions
        self.mod = self.ld.load("lamberthub") if load else None

    def const(self, c):
        return self.x.const(c)

    def tols(self):
        x, eng = self.x, self.eng
        at = x.var("atol", lo=0, sampler=lambda r, n: np.full(n, 1e-9))
        rt = x.var("rtol", lo=0, sampler=lambda r, n: np.full(n, 1e-9))
        mi = x.var("maxiter", lo=0, sampler=lambda r, n: r.integers(1, 60, n))
        for v in (at, rt):
            x.gens[x.fgens[list(v.f)[0]][0]].tiny = True
        x.has_tiny = True
        eng.base.append((mi - 1, ">="))
        return dict(maxiter=mi, atol=at, rtol=rt)

    def shape(self, T=None, k=None):
        """Lengths and angles of a transfer triangle, rational in lam, q, T.  The transfer angle is in (0, pi)."""
        x = self.x
        lam, q = x.var("lam", 0, 1), x.var("q", 0)
        T = x.var("T", 0) if T is None else x.const(T)
        k = x.var("k", 0) if k is None else x.const(k)
        one = x.const(1)
        x.add_nice(lam, q, one - lam, one + lam, one + q * q, lam * lam + q * q, one + lam * lam * q * q)
        R1 = T * (lam * lam + q * q)
        R2 = T * (one + lam * lam * q * q)
        D = T * T * (lam * lam * (one + q * q) * (one + q * q) - (one - lam * lam) * (one - lam * lam) * q * q)
        K = T * T * 2 * lam * q * (one - lam * lam) * (one + q * q)
        self.lam, self.q, self.T, self.k = lam, q, T, k
        self.R1, self.R2, self.D, self.K, self.mu = R1, R2, D, K, k * k
        self.u2 = (D / (R1 * R2), K / (R1 * R2))
        return self

    def planar(self, flip=False, T=None, k=None):
        """r1 along x, r2 in the xy plane; normal r1 x r2 along +z (or -z)."""
        self.shape(T, k)
        z = self.x.const(0)
        s = -1 if flip else 1
        self.r1 = I.arr([self.R1, z, z])
        self.r2 = I.arr([self.D / self.R1, s * self.K / self.R1, z])
        self.tof = self.x.var("tof", 0)
        return self

    def frame(self, u, v, w):
        """r1 and r2 in the plane of the unit vectors u, v (lists of values or rationals), normal w = u x v."""
        x = self.x
        c = lambda t: t if isinstance(t, V) else x.const(t)
        u, v = [c(t) for t in u], [c(t) for t in v]
        a, b = self.D / self.R1, self.K / self.R1
        self.r1 = I.arr([self.R1 * t for t in u])
        self.r2 = I.arr([a * s + b * t for s, t in zip(u, v)])
        self.w = [c(t) for t in w]
        self.tof = x.var("tof", 0)
        return self

    def tilted(self, flip=False, T=None, k=None, node=(4, 3, 5), lat=(5, 12, 13)):
        """Plane with an arbitrary inclination in (0, pi) about a fixed node; flip swaps the side of the normal."""
        x = self.x
        self.shape(T, k)
        t = x.var("tilt", 0)
        one = x.const(1)
        x.add_nice(one - t, one + t, one + t * t)
        d = one + t * t
        ci, si = (one - t * t) / d, 2 * t / d
        # node at angle with cosine 4/5, argument of latitude of r1 with cosine 5/13
        cO, sO, cw, sw = (Fraction(a, b) for a, b in ((node[0], node[2]), (node[1], node[2]), (lat[0], lat[2]), (lat[1], lat[2])))
        N = [x.const(cO), x.const(sO), x.const(0)]
        Mv = [-sO * ci, cO * ci, si]
        u = [cw * a + sw * b for a, b in zip(N, Mv)]
        v = [-sw * a + cw * b for a, b in zip(N, Mv)]
        w = [sO * si, -cO * si, ci]
        if flip:
            v, w = [-t for t in v], [-t for t in w]
        return self.frame(u, v, w)

    def polar(self, flip=False, T=None, k=None, n=0):
        """Planes that contain the z axis exactly."""
        self.shape(T, k)
        F_ = Fraction
        frames = [
            ([1, 0, 0], [0, 0, 1], [0, -1, 0]),
            ([0, 1, 0], [0, 0, 1], [1, 0, 0]),
            ([F_(3, 5), 0, F_(4, 5)], [F_(-4, 5), 0, F_(3, 5)], [0, -1, 0]),
            ([F_(9, 25), F_(12, 25), F_(4, 5)], [F_(-12, 25), F_(-16, 25), F_(3, 5)], [F_(4, 5), F_(-3, 5), 0]),
        ]
        u, v, w = frames[n]
        if flip:
            v, w = [-t for t in v], [-t for t in w]
        return self.frame(u, v, w)

    def case(self, inputs, idx=None, n=3, **extra):
        """Concrete input sets of the current path: samples of the bank that are on it, else a model of the solver."""
        x, p = self.x, self.eng.path
        m = p.mask if p.mask is not None else np.zeros(x.npts, bool)
        ids = np.flatnonzero(m) if idx is None else np.asarray(idx)
        out = []
        vals = {}

        def ev(v):
            if isinstance(v, np.ndarray):
                return [ev(t) for t in v.ravel()]
            if isinstance(v, (list, tuple)):
                return [ev(t) for t in v]
            if isinstance(v, V):
                return v.num()
            return v

        def at(v, j):
            if isinstance(v, list):
                return [at(t, j) for t in v]
            if isinstance(v, np.ndarray):
                c = complex(v[j])
                return c.real if np.isfinite(c.real) and abs(c.imag) < 1e-9 * (1 + abs(c.real)) else float("nan")
            return v
        if len(ids):
            vals = {k: ev(v) for k, v in inputs.items()}
            score = np.zeros(x.npts)
            for g in x.gens:
                if g.kind == "var" and not g.tiny and g.name not in ("maxiter",) and g.cache is not None and len(g.cache) == x.npts:
                    a = np.abs(g.cache.real.astype(float))
                    score += np.abs(np.log(np.clip(a, 1e-6, 1e6))) * (0.5 if "@" in g.name else 1)
            ids = ids[np.argsort(score[ids], kind="stable")]
            for j in ids:
                c = {k: at(v, j) for k, v in vals.items()}
                if all(np.all(np.isfinite(np.asarray(t, float))) for t in c.values() if not isinstance(t, (str, bool, type(None)))):
                    out.append({**c, **extra})
                    if len(out) >= n:
                        break
        if not out:
            c = self.model_case(inputs)
            if c is not None:
                out.append({**c, **extra, "model": True})
        return out

    def model_case(self, inputs, conds=(), timeout=1500):
        """Inputs from a model of the path constraints."""
        x, eng, p = self.x, self.eng, self.eng.path
        cs = [SymBool("cmp", v, op) for v, op in eng.base + p.cons] + list(conds)
        try:
            # a well-conditioned one if there is any
            box = [compare(v, x.const(b), op) for n, lo, hi in (("lam", Fraction(1, 5), Fraction(4, 5)), ("q", Fraction(1, 3), 3), ("T", Fraction(1, 3), 3), ("k", Fraction(1, 4), 4))
                   if isinstance(getattr(self, n, None), V) and getattr(self, n).f for v in (getattr(self, n),) for b, op in ((lo, ">="), (hi, "<="))]
            if not (box and eng.check(cs + box, timeout=timeout, model=True) is True) and eng.check(cs, timeout=timeout, model=True) is not True:
                return None
        except (Unsupported, z3.Z3Exception):
            return None
        md = eng.model
        vals = {}
        for i, g in enumerate(x.gens):
            if g.kind in ("var", "cos", "sin", "cosh", "sinh") and g.name:
                zv = eng.zv.get(i)
                if zv is None:
                    continue
                r = md.eval(zv)
                try:
                    if z3.is_algebraic_value(r):
                        r = r.approx(20)
                    vals[i] = float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
                except Exception:
                    pass
        with self.point(vals):
            c = {}
            for k, v in inputs.items():
                def ev(v):
                    if isinstance(v, (np.ndarray, list, tuple)):
                        return [ev(t) for t in (v.ravel() if isinstance(v, np.ndarray) else v)]
                    if isinstance(v, V):
                        w = complex(v.num()[0])
                        return w.real
                    return v
                c[k] = ev(v)
        if all(np.all(np.isfinite(np.asarray(t, float))) for t in c.values() if not isinstance(t, (str, bool, type(None)))):
            return c
        return None

    def declare(self, inputs, **extra):
        """Inputs and fixed fields of the candidates that a failing obligation makes."""
        self.decl = (inputs, extra)
        self.cex_left = 10

    def fallback(self, inputs, **extra):
        """Inputs and fixed fields of the candidates made on paths that cannot be followed to their end."""
        self.fb = (inputs, extra)
        self.eng.report_all = True

    def counterexample(self, *alts):
        """Candidates from models of the path together with the negated obligation (the first alternative that has one)."""
        if self.decl is None or self.cex_left <= 0:
            return
        self.cex_left -= 1
        inputs, extra = self.decl
        for conds in alts:
            try:
                c = self.model_case(inputs, conds)
            except (Unsupported, z3.Z3Exception, ArithmeticError):
                c = None
            if c is not None:
                self.R.cand({**c, **extra, "model": True, "ob": str(extra.get("ob")) + " cex"}, limit=10)
                return

    def point(self, vals):
        """Evaluate at one point given by generator values."""
        import contextlib
        x = self.x

        @contextlib.contextmanager
        def cm():
            with x.small(np.array([0])):
                for i, v in vals.items():
                    x.gens[i].cache = np.array([v], dtype=np.clongdouble)
                yield
        return cm()

    def dead(self, timeout=2000):
        """Is the current path infeasible?  (a deeper look than while branching)"""
        eng, p = self.eng, self.eng.path
        try:
            cs = [SymBool("cmp", v, op) for v, op in eng.base + p.cons]
            return eng.check(cs, timeout=timeout) is False
        except (Unsupported, z3.Z3Exception):
            return False

    # -------------------------------------------------------------- obligations
    def zero(self, name, *vs):
        """Obligation: all values vanish on this path."""
        r = True
        for v in vs:
            if isinstance(v, float) and v != v:
                r = None
                break
            try:
                if not self.eng.is_zero(v) and not self.zero_by_solver(v):
                    r = None
                    break
            except Unsupported:
                r = None
                break
        self.R.ob(name, r)
        if r is None and self.decl is not None:
            for v in vs:
                if isinstance(v, V) and v.c:
                    self.counterexample([compare(v * v, self.x.const(Fraction(1, 1000)), ">")], [compare(v * v, self.x.const(Fraction(1, 10 ** 10)), ">")], [compare(v, self.x.const(0), "!=")])
        return r

    def zero_by_solver(self, v, timeout=1500):
        """The path entails that some factor of the value vanishes, by a query."""
        eng, x = self.eng, self.x
        if not isinstance(v, V) or eng.surely_nonzero(v):
            return False
        for fid, e in v.f.items():
            if e <= 0 or len(x.factors[fid]) > 80 or len(x.factors[fid]) < 2 and not any(op == "==" for _, op in eng.path.cons):
                continue
            f = V(x, Fraction(1), {fid: 1})
            if eng.surely_nonzero(f):
                continue
            if eng.check([SymBool("cmp", f, "!=")], timeout=timeout) is False:
                return True
        return False

    def holds(self, name, cond, timeout=None):
        """Obligation: the path entails the condition."""
        if isinstance(cond, (bool, np.bool_)):
            r = True if cond else False
        else:
            try:
                c = self.eng.check([SymBool("not", cond)], timeout=timeout)
                r = True if c is False else False if c is True else None
            except (Unsupported, z3.Z3Exception):
                r = None
        self.R.ob(name, r)
        if r is not True and self.decl is not None:
            self.counterexample([SymBool("not", cond)] if isinstance(cond, SymBool) else [])
        return r

    def explore(self, fn, on_path=None):
        R = self.R
        R.clear()

        def wrapped(p):
            if p.outcome[0] == "unsupported" and self.fb is not None:
                # code the executor does not follow: no claim, but the path is searched for counterexamples
                inputs, extra = self.fb
                for c in self.case(inputs, n=3, **extra):
                    R.cand({**c, "ob": "not followed"}, limit=12)
                return
            # a path left undecided is first looked at more closely: it may not exist
            obs, nc, nr = {k: list(v) for k, v in R.obs.items()}, len(R.cands), R.reached
            on_path(p)
            und = [k for k, v in R.obs.items() if v[1] + v[2] > sum(obs.get(k, [0, 0, 0])[1:])]
            if und and self.dead():
                R.obs, R.reached = obs, nr
                del R.cands[nc:]
                R.paths["infeasible"] = R.paths.get("infeasible", 0) + 1
        ps = self.eng.explore(fn, wrapped if on_path else None)
        for p in ps:
            k = p.outcome[0]
            if k == "raise":
                k = "raise " + type(p.outcome[1]).__name__
            elif k == "unsupported":
                R.note("not followed: " + str(p.outcome[1])[:100])
            R.paths[k] = R.paths.get(k, 0) + 1
        R.complete = self.eng.complete
        R.havoc = sorted(self.eng.havoc_loops)
        self.finish()
        return ps

    def finish(self):
        s = self.eng.stats
        R = self.R
        R.stats = {k: R.stats.get(k, 0) + getattr(s, k) for k in ("queries", "sat", "unsat", "unknown", "time", "paths", "zero_tests")}


def is_nan(v):
    """Does the value (vector, tuple) contain a non-finite entry?"""
    if isinstance(v, (list, tuple, np.ndarray)):
        return any(is_nan(t) for t in (v.ravel() if isinstance(v, np.ndarray) else v))
    return isinstance(v, float) and not (abs(v) < 1e300)
