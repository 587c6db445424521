"""Properties decided on uninterpreted paths: shared problem set-up and the search for concrete inputs of a path."""
import math
import time
import numpy as np
import z3

from . import terms as U
from .terms import T, B

NAMES = ("mu", "tof", "atol", "rtol")


class Job:
    """One exploration: fresh modules on every path, symbolic numbers, concrete revolution count and iteration limit."""

    def __init__(self, R, budget, solver, M=0, maxiters=(1, 2), max_paths=20000, unroll=3, breadth=True):
        self.R, self.solver, self.M, self.maxiters = R, solver, M, maxiters
        self.eng = U.Engine(budget=budget, max_paths=max_paths, unroll=unroll)
        self.eng.breadth = breadth
        self.mu, self.tof, self.atol, self.rtol = (U.sym(n) for n in NAMES)
        self.easy = 2
        self.fresh()

    def fresh(self):
        self.r1, self.r2 = U.vec("p"), U.vec("s")
        self.in1, self.in2 = list(self.r1), list(self.r2)
        self.ld = U.Loader()
        self.mod = self.ld.load("lamberthub")
        return self

    def choose(self, name, *opts):
        """A nondeterministic choice that is part of the path."""
        for o in opts[:-1]:
            if bool(U.mkb("choice", name, repr(o))):
                return o
        return opts[-1]

    def options(self):
        self.pro = self.choose("sense", True, False)
        self.low = self.choose("path", True, False) if self.M else True
        self.maxiter = self.choose("maxiter", *self.maxiters)
        return dict(M=self.M, is_prograde=self.pro, is_low_path=self.low, maxiter=self.maxiter, atol=self.atol, rtol=self.rtol)

    def call(self, **kw):
        return getattr(self.mod, self.solver)(self.mu, self.r1, self.r2, self.tof, **kw)

    def attempt(self, **kw):
        try:
            return ("return", self.call(**kw))
        except (U.Cut, U.Late, U.Unsupported, RecursionError):
            raise
        except Exception as e:
            self.eng.path.info["raised"] = True
            return ("raise", type(e).__name__)

    def explore(self, fn, on_path, base=()):
        R = self.R
        R.clear()

        def wrapped(p):
            k = p.outcome[0]
            if k == "raise":
                k = "raise " + type(p.outcome[1]).__name__
            elif k == "unsupported":
                R.note("not followed: " + str(p.outcome[1])[:100])
                k = "unsupported"
            R.paths[k] = R.paths.get(k, 0) + 1
            R.reached += 1
            on_path(p)
        import sys
        names = set()

        def prof(frame, ev, arg):
            if ev == "call" and "/lamberthub/" in frame.f_code.co_filename:
                names.add(frame.f_code.co_filename.rsplit("/src/", 1)[-1] + ":" + frame.f_code.co_name)
        first = [True]

        def traced():
            self.fresh()
            if R.reached < 6:
                sys.setprofile(prof)
                try:
                    return fn()
                finally:
                    sys.setprofile(None)
            return fn()
        self.eng.explore(traced, wrapped, base)
        R.complete = self.eng.complete
        R.functions |= {n.replace("/", ".").replace(".py:", ".") for n in names if "<" not in n}
        s = self.eng.stats
        R.stats = {k: getattr(s, k) for k in ("queries", "sat", "unsat", "unknown", "time", "paths")}

    # ------------------------------------------------------------ concrete inputs for a path
    def cases(self, p, n=3, **extra):
        """Concrete problems that satisfy as much of the path condition as can be evaluated."""
        base = dict(kind=None, solver=self.solver, M=self.M, pro=getattr(self, "pro", True), low=getattr(self, "low", True))
        pool = list(POOL)
        z = nra(self.eng, p)
        if z is not None:
            pool += z
        if self.easy > 0:
            # ordinary problems, whatever the path
            self.easy -= 1
            for c in EASY:
                self.R.cand({**base, **{k: c[k] for k in ("mu", "tof")}, "tof": c["tof"] * (8 if self.M else 1), "r1": list(c["p"]), "r2": list(c["s"]),
                             **extra, "ob": extra.get("ob", "") + " ordinary"}, limit=2 * len(EASY))
        best = []
        for tol in TOLS:
            for c in pool[:60] + pool[len(POOL):] if tol is not TOLS[0] else pool:
                c = {**c, **tol}
                best.append((-score(p, c), len(best), c))
        best.sort(key=lambda t: t[:2])
        out, tend = [], time.time() + 2.0
        for s, i, c in best[:3 * n]:
            if s > -1000 and time.time() < tend:
                c, s = repair(p, c, -s)
                s = -s
            out.append((s, i, c))
        out.sort(key=lambda t: t[:2])
        return [{**base, **{k: c[k] for k in NAMES}, "maxiter": getattr(self, "maxiter", None), "r1": list(c["p"]), "r2": list(c["s"]), **extra} for s, i, c in out[:n]]


TOLS = [dict(atol=1e-5, rtol=1e-7), dict(atol=1e3, rtol=1e3), dict(atol=1e-10, rtol=1e-12), dict(atol=0.05, rtol=1e-3)]


def repair(p, c, s0):
    """Change the time of flight (or the size of the second position) so that the first condition that fails holds."""
    for step in range(3):
        memo = {}
        bad = None
        for b, v in p.decs:
            try:
                if truth(b, c, memo) != v:
                    bad = (b, v)
                    break
            except Exception:
                continue
        if bad is None:
            break
        new = None
        for var in ("tof", "s"):
            def at(x):
                return {**c, "tof": c["tof"] * x} if var == "tof" else {**c, "s": [t * x for t in c["s"]]}
            xs = [10 ** (k / 10) for k in range(-25, 26)]
            vals, cand = [], []
            for x in xs:
                d = at(x)
                try:
                    if truth(bad[0], d, {}) == bad[1]:
                        cand.append(d)
                    vals.append(gap(bad[0], d))
                except Exception:
                    vals.append(None)
            for i in range(len(xs) - 1):
                if vals[i] is not None and vals[i + 1] is not None and vals[i] * vals[i + 1] < 0:
                    lo, hi, fl = xs[i], xs[i + 1], vals[i]
                    for _ in range(80):
                        m = math.sqrt(lo * hi)
                        try:
                            fm = gap(bad[0], at(m))
                        except Exception:
                            break
                        if fl * fm <= 0:
                            hi = m
                        else:
                            lo, fl = m, fm
                    cand += [at(lo), at(hi), at(lo * (1 - 1e-9)), at(hi * (1 + 1e-9))]
            for d in cand[::max(1, len(cand) // 12)] + cand[-4:]:
                t = score(p, d)
                if t > s0 and (new is None or t > new[1]):
                    new = (d, t)
        if new is None:
            break
        c, s0 = new
    return c, s0


def gap(b, c):
    """Signed distance to the border of a comparison; for |a - b| <= tol, of a - b."""
    o, a = b.op, b.args
    if o == "not":
        return gap(a[0], c)
    if o not in ("lt", "le", "eq"):
        raise NoValue(o)
    x, y = a
    if isinstance(x, T) and x.op == "abs":
        x, y = x.args[0], 0.0
    memo = {}
    return float(evaluate(x, c, memo) - evaluate(y, c, memo))


def make_pool(n=160, seed=3):
    g = np.random.default_rng(seed)
    out = []
    for i in range(n):
        th = g.uniform(0.1, 3.0)
        a, b = 10 ** g.uniform(-0.5, 0.5), 10 ** g.uniform(-0.5, 0.5)
        u = g.normal(size=3)
        u /= np.linalg.norm(u)
        w = np.cross(u, g.normal(size=3))
        w /= np.linalg.norm(w)
        if i % 4 == 0:
            u, w = np.array([1.0, 0, 0]), np.array([0, 1.0, 0]) * (1 if i % 8 else -1)
        r1, r2 = a * u, b * (math.cos(th) * u + math.sin(th) * w)
        s = (a + b + np.linalg.norm(r1 - r2)) / 2
        mu = 10 ** g.uniform(-0.3, 0.3)
        tm = 2 * math.pi * math.sqrt((s / 2) ** 3 / mu)
        tof = tm * 10 ** g.uniform(-1.5, 1.5)
        out.append(dict(mu=mu, p=list(map(float, r1)), s=list(map(float, r2)), tof=float(tof), atol=1e-5, rtol=1e-7))
    return out


POOL = make_pool()
EASY = [dict(mu=1.0, p=[1.0, 0.1 * i, 0.0], s=[math.cos(0.6 + 0.3 * i) * (0.8 + 0.2 * i), math.sin(0.6 + 0.3 * i) * (0.8 + 0.2 * i), 0.1 * (i % 3)],
             tof=0.4 * 1.6 ** i, atol=1e-5, rtol=1e-7) for i in range(6)]


def lookup(name, c):
    if name in NAMES:
        return c[name]
    return c[name[0]][int(name[1:])]


def evaluate(t, c, memo):
    if isinstance(t, T):
        if t.id in memo:
            return memo[t.id]
        v = _ev(t, c, memo)
        memo[t.id] = v
        return v
    if isinstance(t, (list, tuple)):
        return [evaluate(x, c, memo) for x in t]
    if isinstance(t, np.ndarray):
        return np.array([evaluate(x, c, memo) for x in t.ravel()]).reshape(t.shape)
    return t


class NoValue(Exception):
    pass


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": np.divide, "pow": np.power,
       "mod": np.mod, "floordiv": np.floor_divide, "max": max, "min": min}


def _ev(t, c, memo):
    if t.op == "sym":
        return np.float64(lookup(t.args[0], c))
    a = [evaluate(x, c, memo) for x in t.args]
    with np.errstate(all="ignore"):
        if t.op in BIN:
            return BIN[t.op](*a)
        if t.op == "neg":
            return -a[0]
        if t.op == "norm":
            return np.linalg.norm(a)
        if t.op == "dot":
            h = len(a) // 2
            return np.dot(a[:h], a[h:]) if len(a) > 2 else np.dot(a[0], a[1])
        if t.op == "sum":
            return np.sum(a)
        if t.op == "int":
            return int(a[0])
        f = getattr(np, t.op, None) or getattr(math, t.op, None)
        if f is None:
            raise NoValue(t.op)
        return f(*a)


def truth(b, c, memo):
    o, a = b.op, b.args
    if o == "not":
        return not truth(a[0], c, memo)
    if o in ("and", "or"):
        r = [truth(x, c, memo) for x in a]
        return all(r) if o == "and" else any(r)
    if o == "choice":
        raise NoValue()
    v = [evaluate(x, c, memo) for x in a]
    with np.errstate(all="ignore"):
        if o == "lt":
            return bool(v[0] < v[1])
        if o == "le":
            return bool(v[0] <= v[1])
        if o == "eq":
            return bool(v[0] == v[1])
        f = getattr(np, o, None)
        if f is None:
            raise NoValue(o)
        return bool(f(*v))


def score(p, c):
    """How many conditions of the path the problem satisfies before the first it does not."""
    memo = {}
    n = 0
    for b, v in p.decs:
        try:
            if truth(b, c, memo) != v:
                return n
            n += 1
        except Exception:
            continue
    return n + 1000


def nra(eng, p, limit=40):
    """Problems from a model of the small algebraic conditions of the path."""
    s = z3.Solver()
    s.set("timeout", 1500)
    zs, memo, side = {}, {}, []

    def size(t, d=0):
        return 1 if not isinstance(t, T) else 1 + sum(size(x, d + 1) for x in t.args) if d < 12 else 999

    def tr(t):
        if isinstance(t, T):
            if t.id in memo:
                return memo[t.id]
            o, a = t.op, t.args
            if o == "sym":
                v = zs.setdefault(a[0], z3.Real("z" + a[0]))
            elif o in ("add", "sub", "mul", "div"):
                x, y = tr(a[0]), tr(a[1])
                v = x + y if o == "add" else x - y if o == "sub" else x * y if o == "mul" else x / y
            elif o == "neg":
                v = -tr(a[0])
            elif o == "abs":
                x = tr(a[0])
                v = z3.If(x >= 0, x, -x)
            elif o == "sqrt":
                x = tr(a[0])
                v = z3.Real(f"q{t.id}")
                side.append(z3.And(v >= 0, v * v == x))
            elif o == "norm":
                x = [tr(y) for y in a]
                v = z3.Real(f"q{t.id}")
                side.append(z3.And(v >= 0, v * v == sum(y * y for y in x)))
            elif o == "pow" and a[1] in (2, 3):
                x = tr(a[0])
                v = x * x if a[1] == 2 else x * x * x
            elif o == "dot":
                x = [tr(y) for y in a]
                h = len(x) // 2
                v = sum(u * w for u, w in zip(x[:h], x[h:]))
            else:
                raise NoValue(o)
            memo[t.id] = v
            return v
        f = float(t)
        if not math.isfinite(f):
            raise NoValue()
        return z3.Q(*f.as_integer_ratio())

    def tb(b):
        o, a = b.op, b.args
        if o == "not":
            return z3.Not(tb(a[0]))
        if o in ("and", "or"):
            return (z3.And if o == "and" else z3.Or)([tb(x) for x in a])
        if o not in ("lt", "le", "eq") or sum(size(x) for x in a) > limit:
            raise NoValue(o)
        x, y = tr(a[0]), tr(a[1])
        return x < y if o == "lt" else x <= y if o == "le" else x == y
    cs = []
    for b, v in p.decs:
        try:
            z = tb(b)
            cs.append(z if v else z3.Not(z))
        except Exception:
            continue
    for k in ("mu", "tof"):
        zs.setdefault(k, z3.Real("z" + k))
    for n in "ps":
        for i in range(3):
            zs.setdefault(f"{n}{i}", z3.Real(f"z{n}{i}"))
    # keep to ordinary magnitudes and away from collinear positions, more and more loosely
    out = []
    ps, ss = [zs[f"p{i}"] for i in range(3)], [zs[f"s{i}"] for i in range(3)]
    for nice in (True, False):
        s.push()
        s.add(*side, *cs)
        s.add(zs["mu"] > 0, zs["tof"] > 0)
        if nice:
            s.add(ps[1] == 0, ps[2] == 0, ss[2] == 0, ps[0] > z3.Q(1, 10), ss[1] * 4 > ss[0], ss[1] * 4 > -ss[0], ss[1] > z3.Q(1, 10))
        if s.check() == z3.sat:
            m = s.model()

            def val(k):
                r = m.eval(zs[k], model_completion=True)
                if z3.is_algebraic_value(r):
                    r = r.approx(20)
                return float(r.as_fraction())
            try:
                out.append(dict(mu=val("mu"), tof=val("tof"), p=[val(f"p{i}") for i in range(3)], s=[val(f"s{i}") for i in range(3)], atol=1e-5, rtol=1e-7))
            except Exception:
                pass
        s.pop()
        if out:
            break
    return out
