"""Path exploration of the real code over symbolic reals, with z3 as the solver of path conditions."""
import time
from fractions import Fraction
import numpy as np
import z3

from . import poly as P
from . import alg as A
from .alg import V, Ctx, Restart, Unsupported, TooBig, coerce, vmul, vpowi, ONEF
from . import funcs as F
from .funcs import NAN, INF, is_special


class PathCut(BaseException):
    """The current path ends here: infeasible, or a loop body that does not leave the loop."""


class Budget(BaseException):
    """Out of time or paths."""


EFFORT = 6000, 3_000_000   # terms and products of one identity test
E = None   # the active engine


class SymBool:
    __slots__ = ("kind", "a", "b")

    def __init__(self, kind, a, b=None):
        self.kind, self.a, self.b = kind, a, b

    def __bool__(self):
        return bool(E.branch(self))

    def __and__(self, o):
        return SymBool("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return SymBool("or", self, o)

    __ror__ = __or__

    def __invert__(self):
        return SymBool("not", self)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    __hash__ = None

    def to_V(self):
        return E.x.const(1 if bool(self) else 0)

    def __mul__(self, o):
        return self.to_V() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.to_V() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.to_V() - o

    def __rsub__(self, o):
        return o - self.to_V()

    def __repr__(self):
        return f"SymBool({self.kind},{self.a},{self.b})"


NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def is_tiny(v):
    """Positive infinitesimal: every term carries a tolerance."""
    if not isinstance(v, V) or not v.c:
        return False
    x = v.x
    for fid, e in v.f.items():
        if e > 0 and all(any(x.gens[i].tiny for i in P.gens_of({m: 1})) for m in x.factors[fid]):
            return True
    return False


def drop_tiny(v):
    """The value with all tolerances at zero, unless it vanishes."""
    x = v.x
    if not x.has_tiny:
        return v
    out = V(x, v.c, {})
    changed = False
    for fid, e in v.f.items():
        p = x.factors[fid]
        if any(x.gens[i].tiny for i in x.fgens[fid]):
            q = {m: c for m, c in p.items() if not any(x.gens[i].tiny for i in P.gens_of({m: 1}))}
            if q and len(q) < len(p):
                c, f = x.split(q)
                out = vmul(out, vpowi(V(x, Fraction(c), f), e))
                changed = True
                continue
        out = vmul(out, V(x, ONEF, {fid: e}))
    return out if changed else v


Ctx.has_tiny = False


def compare(a, b, op):
    """Symbolic comparison of two reals."""
    if is_special(a) or is_special(b):
        if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
            return op == "!="
        fa = a if isinstance(a, float) else 0.0
        fb = b if isinstance(b, float) else 0.0
        return {"<": fa < fb, "<=": fa <= fb, ">": fa > fb, ">=": fa >= fb, "==": fa == fb, "!=": fa != fb}[op]
    d = drop_tiny(a - b)
    return decide_static(d, op)


def decide_static(d, op):
    s = d.x.sign0(d)
    r = from_sign(s, op)
    if r is not None:
        return r
    return SymBool("cmp", d, op)


def from_sign(s, op):
    if s is None:
        return None
    if s in ("0+", "0-"):
        if (s == "0+" and op == ">=") or (s == "0-" and op == "<="):
            return True
        if (s == "0+" and op == "<") or (s == "0-" and op == ">"):
            return False
        return None
    return {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op]


def sign0(x, v):
    """Sign without asking the solver."""
    h, x.signq = x.signq, None
    try:
        return F.sign(x, v, weak=True)
    finally:
        x.signq = h


Ctx.sign0 = sign0


class AbsVal:
    """|e|, kept symbolic until something depends on the sign of e."""
    __slots__ = ("e", "im")

    def __init__(self, e, im=None):
        self.e, self.im = e, im

    def to_V(self):
        if self.im is not None:
            return F.vsqrt(self.e * self.e + self.im * self.im)
        return F.vabs(self.e)

    def _tinymul(self, o):
        if isinstance(o, V) and is_tiny(o):
            x = self.e.x
            g = F.opaque(x, "abs", (self.e,) if self.im is None else (self.e, self.im),
                         lambda a, b=0: np.abs(a + 1j * b), sign="0+")
            return vmul(g, o)
        return None

    def __mul__(self, o):
        t = self._tinymul(o)
        return t if t is not None else self.to_V() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self.to_V() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.to_V() - o

    def __rsub__(self, o):
        return o - self.to_V()

    def __truediv__(self, o):
        return self.to_V() / o

    def __rtruediv__(self, o):
        return o / self.to_V()

    def __neg__(self):
        return -self.to_V()

    def __pow__(self, n):
        return self.to_V() ** n

    def _near(self, o, op):
        o2 = o.to_V() if isinstance(o, AbsVal) else coerce(self.e.x, o)
        if isinstance(o2, V) and (is_tiny(o2) or small_const(o2)) and op in ("<", "<=", ">", ">="):
            if not self.e.c and (self.im is None or not self.im.c):
                return op in ("<", "<=")
            s = None if self.im is not None else self.e.x.sign0(self.e)
            if s in (1, -1) and is_tiny(o2) and not small_vals(self.e):
                return op in (">", ">=")
            near = SymBool("near", (self.e, self.im), o2)
            return near if op in ("<", "<=") else SymBool("not", near)
        if self.im is None and isinstance(o2, V) and op in ("<", "<=", ">", ">="):
            # |e| op b without deciding the sign of e
            if op in ("<", "<="):
                a, b = compare(self.e, o2, op), compare(-self.e, o2, op)
                if a is True:
                    return b
                if b is True:
                    return a
                if a is False or b is False:
                    return False
                return SymBool("and", a, b)
            a, b = compare(self.e, o2, op), compare(-self.e, o2, op)
            if a is True or b is True:
                return True
            if a is False:
                return b
            if b is False:
                return a
            return SymBool("or", a, b)
        return compare(self.to_V(), o2, op)

    def __lt__(self, o):
        return self._near(o, "<")

    def __le__(self, o):
        return self._near(o, "<=")

    def __gt__(self, o):
        return self._near(o, ">")

    def __ge__(self, o):
        return self._near(o, ">=")

    def __eq__(self, o):
        if isinstance(o, (int, float)) and o == 0 and self.im is None:
            return self.e == 0
        return compare(self.to_V(), coerce(self.e.x, o), "==")

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else SymBool("not", r)

    __hash__ = None

    def __repr__(self):
        return f"|{self.e}|"


def small_const(v):
    return False


def small_vals(e):
    return any(e.x.gens[i].tiny for fid in e.f for i in e.x.fgens[fid])


def _cmp(op):
    def f(self, o):
        if isinstance(o, AbsVal):
            return getattr(o, {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__", "==": "__eq__", "!=": "__ne__"}[op])(self)
        if o is None or isinstance(o, str):
            return op == "!="
        o = coerce(self.x, o)
        if o is NotImplemented:
            return NotImplemented
        return compare(self, o, op)
    return f


V.__lt__, V.__le__, V.__gt__, V.__ge__ = _cmp("<"), _cmp("<="), _cmp(">"), _cmp(">=")
V.__eq__, V.__ne__ = _cmp("=="), _cmp("!=")
V.__hash__ = lambda self: hash(self.key())
V.__abs__ = lambda self: AbsVal(self)
V.__bool__ = lambda self: bool(self != 0)
V.real = property(lambda self: self)
V.imag = property(lambda self: self.x.const(0))
V.conjugate = lambda self: self
V.item = lambda self: self


def _float(self):
    if not self.f:
        return float(self.c)
    raise Unsupported("float() of a symbolic value")


V.__float__ = _float


def _int(self):
    if not self.f:
        return int(self.c)
    raise Unsupported("int() of a symbolic value")


V.__int__ = _int


def _index(self):
    if not self.f and self.c.denominator == 1:
        return int(self.c)
    raise TypeError("not an integer")


V.__index__ = _index


class Path:
    def __init__(self):
        self.decisions = []
        self.cons = []        # (V, op)
        self.accepts = []     # (e, im, tol, outcome) near-zero tests taken as true
        self.rejects = []
        self.outcome = None   # ("return", value) | ("raise", exc) | ("cut", why) | ("unsupported", why)
        self.notes = []
        self.exhausted = []
        self.roots = []
        self.mask = None
        self.havocs = []
        self.looped = set()
        self.summarised = []   # functions left out, in the order of their calls


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.zero_tests = 0

    def add(self, o):
        for k in ("queries", "sat", "unsat", "unknown", "time", "paths", "zero_tests"):
            setattr(self, k, getattr(self, k) + getattr(o, k))


class Engine:
    def __init__(self, ctx, timeout_ms=600, max_paths=400, budget_s=60.0, unroll=3, rlimit=100_000):
        self.x = ctx
        F.init(ctx) if ctx.cscache is None else None
        self.timeout_ms = timeout_ms
        self.rlimit = rlimit     # deterministic effort limit of a branch query
        self.max_paths = max_paths
        self.budget_s = budget_s
        self.deadline = None
        self.stats = Stats()
        self.havoc_loops = set()
        self.unroll = unroll
        self.base = []           # assumptions of the harness
        self.loopstack = []
        self.summaries = {}      # functions of the package that are not followed -> shape of their result
        self.zv = {}
        self.zf = {}
        self.qcache = {}
        self.fork_limit = 60
        self.solve_pref = []
        ctx.signq = self.factor_sign
        ctx.fork_sign = self.fork_sign
        ctx.branch_cmp = self.branch_cmp
        self.path = None
        self.model = None
        self.on_restart = None
        self.forget = None            # generator of the time of flight: steps of iterations become any number
        self.forget_tof = None        # generator of the time of flight: functions without it that do not loop are not left out
        self.cut = 0
        self.mixed = False            # look at paths far apart first
        self.skip_exhausted = False   # do not follow loops to their iteration limit
        self.skip_failures = False    # library solvers always converge
        self.report_all = False
        self.functions = set()
        self.eq_policy = True    # explore exact-equality branches

    # ------------------------------------------------------------ z3 encoding
    def zgen(self, i):
        v = self.zv.get(i)
        if v is None:
            v = self.zv[i] = z3.Real(f"g{i}")
        return v

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            t = None
            for i in P.gens_of({m: 1}):
                e = (m >> (P.W * i)) & P.MASK
                b = self.zgen(i)
                for _ in range(e):
                    t = b if t is None else t * b
            k = z3.RealVal(c)
            ts.append(k if t is None else (t if c == 1 else k * t))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def zpoly_of(self, v):
        """A value without denominators as a z3 term."""
        t = z3.RealVal(str(v.c))
        for fid, e in v.f.items():
            if e < 0:
                raise Unsupported("denominator")
            for _ in range(e):
                t = t * self.zfac(fid)
        return t

    def zfac(self, fid):
        v = self.zf.get(fid)
        if v is None:
            v = self.zf[fid] = self.zpoly(self.x.factors[fid])
        return v

    def zgen_axioms(self, i):
        g = self.x.gens[i]
        v = self.zgen(i)
        out = []
        if g.sign == "+":
            out.append(v > 0)
        elif g.sign == "0+":
            out.append(v >= 0)
        closed = g.info and isinstance(g.info, dict) and g.info.get("closed")
        if g.kind == "pi":
            out += [v > z3.RealVal("3.14159265358979"), v < z3.RealVal("3.14159265358980")]
        elif g.kind == "var":
            if g.lo is not None:
                out.append(v >= z3.RealVal(str(Fraction(g.lo))) if closed else v > z3.RealVal(str(Fraction(g.lo))))
            if g.hi is not None:
                out.append(v <= z3.RealVal(str(Fraction(g.hi))) if closed else v < z3.RealVal(str(Fraction(g.hi))))
        elif g.kind in ("cos", "sin"):
            out += [v >= -1, v <= 1]
        elif g.kind == "cosh":
            out.append(v >= 1)
        elif g.kind == "angle":
            pig = self.x.pi()
            pz = self.zgen(self.x.fgens[list(pig.f)[0]][0])
            for b, up in ((g.lo, False), (g.hi, True)):
                if b is None:
                    continue
                q = Fraction(b / np.pi).limit_denominator(64)
                if abs(float(q) * np.pi - b) < 1e-9:
                    e = z3.RealVal(str(q)) * pz
                else:
                    e = z3.RealVal(str(Fraction(b).limit_denominator(10 ** 9)))
                out.append(v <= e if up else v >= e)
            info = g.info
            # where the angle is, from the signs of its cosine and sine
            if info["type"] == "circ" and g.lo is not None and g.hi is not None and g.lo >= -np.pi - 1e-9 and g.hi <= 2 * np.pi + 1e-9:
                s, c = info["s"], info["c"]
                for cond, what in ((">", 1), ("<", -1), ("==", 0)):
                    zs = self.zcmp(s, cond)
                    if g.lo >= -1e-9:
                        if what == 1:
                            out.append(z3.Implies(zs, z3.And(v > 0, v < pz)))
                        elif what == -1:
                            out.append(z3.Implies(zs, v > pz))
                    else:
                        if what == 1:
                            out.append(z3.Implies(zs, z3.And(v > 0, v < pz)))
                        elif what == -1:
                            out.append(z3.Implies(zs, z3.And(v < 0, v > -pz)))
                zc = self.zcmp(c, ">")
                h = pz / 2
                if g.lo >= -1e-9:
                    out.append(z3.Implies(zc, z3.Or(v < h, v > 3 * h)))
                    out.append(z3.Implies(self.zcmp(c, "<"), z3.And(v > h, v < 3 * h)))
                elif g.hi <= np.pi + 1e-9:
                    out.append(z3.Implies(zc, z3.And(v > -h, v < h)))
                    out.append(z3.Implies(self.zcmp(c, "<"), z3.Or(v < -h, v > h)))
            elif info["type"] == "hyp":
                out.append(z3.Implies(self.zcmp(info["s"], ">"), v > 0))
                out.append(z3.Implies(self.zcmp(info["s"], "<"), v < 0))
                out.append(z3.Implies(self.zcmp(info["s"], "=="), v == 0))
        if g.kind == "let":
            b = g.info["def"]
            num, den = z3.RealVal(str(b.c)), v
            for fid, e in b.f.items():
                for _ in range(abs(e)):
                    if e > 0:
                        num = num * self.zfac(fid)
                    else:
                        den = den * self.zfac(fid)
            out.append(den == num)
        if g.n and g.rel is not None:
            l = v
            for _ in range(g.n - 1):
                l = l * v
            out.append(l == self.zpoly(g.rel))
        return out

    def gen_deps(self, i, angles=True):
        g = self.x.gens[i]
        d = set()
        if g.n and g.rel:
            d |= set(P.gens_of(g.rel))
        if g.kind == "let":
            for fid in g.info["def"].f:
                d |= set(self.x.fgens[fid])
        if g.kind == "angle" and angles:
            for k in ("c", "s"):
                for fid in g.info[k].f:
                    d |= set(self.x.fgens[fid])
            d.add(self.x.fgens[list(self.x.pi().f)[0]][0])
        return d

    def zcmp(self, v, op):
        """v op 0 as a z3 formula (denominators taken as non-zero)."""
        if not v.f or not v.c:
            c = v.c
            return z3.BoolVal({"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op])
        x = self.x
        if op in ("==", "!="):
            zs = [self.zfac(fid) == 0 for fid, e in v.f.items() if e > 0]
            r = z3.Or(zs) if zs else z3.BoolVal(False)
            return r if op == "==" else z3.Not(r)
        sg = 1 if v.c > 0 else -1
        prod = None
        for fid, e in v.f.items():
            t = F.static_sign(x, fid)
            if t in (1, -1):
                if e % 2:
                    sg *= t
                continue
            f = self.zfac(fid)
            if e % 2 == 0:
                if e > 0 and op in ("<", ">"):
                    f = f * f
                elif e > 0:
                    f = f * f
                else:
                    continue
            prod = f if prod is None else prod * f
        if prod is None:
            return z3.BoolVal({"<": sg < 0, "<=": sg < 0, ">": sg > 0, ">=": sg > 0}[op])
        if sg < 0:
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        return {"<": prod < 0, "<=": prod <= 0, ">": prod > 0, ">=": prod >= 0}[op]

    def zbool(self, sb):
        if isinstance(sb, bool):
            return z3.BoolVal(sb)
        k = sb.kind
        if k == "cmp":
            return self.zcmp(sb.a, sb.b)
        if k == "and":
            return z3.And(self.zbool(sb.a), self.zbool(sb.b))
        if k == "or":
            return z3.Or(self.zbool(sb.a), self.zbool(sb.b))
        if k == "not":
            return z3.Not(self.zbool(sb.a))
        if k == "near":
            e, im = sb.a
            r = self.zcmp(e, "==")
            return r if im is None else z3.And(r, self.zcmp(im, "=="))
        raise Unsupported("condition")

    def sb_vals(self, sb):
        if isinstance(sb, bool):
            return []
        if sb.kind == "cmp":
            return [sb.a]
        if sb.kind == "near":
            return [v for v in sb.a if v is not None]
        return self.sb_vals(sb.a) + (self.sb_vals(sb.b) if sb.b is not None else [])

    def sb_key(self, sb):
        if isinstance(sb, bool):
            return sb
        if sb.kind == "cmp":
            return (sb.a.key(), sb.b)
        if sb.kind == "near":
            return ("near",) + tuple(None if v is None else v.key() for v in sb.a)
        return (sb.kind, self.sb_key(sb.a), self.sb_key(sb.b) if sb.b is not None else None)

    def vgens(self, v):
        out = set()
        for fid in v.f:
            out |= set(self.x.fgens[fid])
        return out

    def cone(self, gens, rounds=3):
        """Constraints and axioms related to the given generators."""
        x = self.x
        gens = set(gens)
        used = set()
        cons = []
        todo = set(gens)
        while todo:
            n = set()
            for i in todo:
                n |= self.gen_deps(i)
            todo = n - gens
            gens |= n
        pool = [(v, op, self.vgens(v)) for v, op in self.base + (self.path.cons if self.path else [])]
        for _ in range(rounds):
            added = False
            for k, (v, op, gs) in enumerate(pool):
                if k in used:
                    continue
                if gs & gens:
                    full = set(gs)
                    todo = set(gs)
                    while todo:
                        n = set()
                        for i in todo:
                            n |= self.gen_deps(i)
                        todo = n - full
                        full |= n
                    used.add(k)
                    cons.append((v, op))
                    if not full <= gens:
                        gens |= full
                        added = True
            if not added:
                break
        return cons, gens

    def check(self, conds, timeout=None, model=False, extra=()):
        """Satisfiability of path constraints and the conditions: True, False, None (unknown)."""
        vals = [v for c in conds for v in self.sb_vals(c)]
        gens = set()
        for v in vals:
            gens |= self.vgens(v)
        cons, gens = self.cone(gens)
        qk = None
        if not model and not extra:
            qk = (timeout, frozenset((v.key(), op) for v, op in cons), tuple(self.sb_key(c) for c in conds))
            if qk in self.qcache:
                return self.qcache[qk]
        # quick and deterministic; deep queries go on to nlsat
        s = z3.SimpleSolver()
        s.set("arith.solver", 2)
        s.set("timeout", self.timeout_ms)
        s.set("rlimit", self.rlimit)
        big = 0
        for v, op in cons:
            big += sum(len(self.x.factors[f]) for f in v.f)
            s.add(self.zcmp(v, op))
        for fid in {f for v in [v for v, _ in cons] + vals for f, e in v.f.items() if e < 0}:
            if F.static_sign(self.x, fid) not in (1, -1):
                s.add(self.zfac(fid) != 0)
        for i in gens:
            for a in self.zgen_axioms(i):
                s.add(a)
        for c in conds:
            s.add(self.zbool(c))
        for e in extra:
            s.add(e)
        t = time.time()
        r = s.check()
        if r == z3.unknown and timeout:
            s2 = z3.Tactic("qfnra-nlsat").solver()
            s2.set("timeout", timeout)
            s2.add(s.assertions())
            r = s2.check()
            s = s2
        self.stats.time += time.time() - t
        self.stats.queries += 1
        if qk is not None:
            self.qcache[qk] = True if r == z3.sat else False if r == z3.unsat else None
        if r == z3.sat:
            self.stats.sat += 1
            if model:
                self.model = s.model()
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        self.stats.unknown += 1
        return None

    def factor_sign(self, fid):
        """Sign of a factor on the current path, by the solver (cached)."""
        x = self.x
        if self.path is None:
            return None
        v = V(x, ONEF, {fid: 1})
        m = self.path.mask
        val = x.fval(fid)
        ok = m & np.isfinite(val.real) & (np.abs(val.imag) < 1e-9 * (1 + np.abs(val.real)))
        pos = bool(np.any(ok & (val.real > 1e-9)))
        neg = bool(np.any(ok & (val.real < -1e-9)))
        if pos and neg:
            return None
        key = ("fs", fid, len(self.path.cons))
        if key in self.path_cache:
            return self.path_cache[key]
        r = None
        if pos or not neg:
            c = self.check([SymBool("cmp", v, "<=")])
            if c is False:
                r = 1
            elif c is True and self.check([SymBool("cmp", v, "<")]) is False:
                r = "0+"
        if r is None and (neg or not pos):
            c = self.check([SymBool("cmp", v, ">=")])
            if c is False:
                r = -1
            elif c is True and self.check([SymBool("cmp", v, ">")]) is False:
                r = "0-"
        self.path_cache[key] = r
        return r

    # ------------------------------------------------------------ branching
    def numeric(self, sb):
        """(surely true, surely false) masks on the bank."""
        n = self.x.npts
        if isinstance(sb, bool):
            a = np.full(n, sb)
            return a, ~a
        if sb.kind == "cmp":
            v = sb.a.num()
            ok = np.isfinite(v.real) & (np.abs(v.imag) <= 1e-9 * (1 + np.abs(v.real)))
            r = v.real
            tol = 1e-11 * (1 + 0 * r)
            p, ng = ok & (r > tol), ok & (r < -tol)
            op = sb.b
            if op in ("<", "<="):
                return ng, p
            if op in (">", ">="):
                return p, ng
            if op == "==":
                return np.zeros(n, bool), p | ng
            return p | ng, np.zeros(n, bool)
        if sb.kind == "and":
            a, b = self.numeric(sb.a), self.numeric(sb.b)
            return a[0] & b[0], a[1] | b[1]
        if sb.kind == "or":
            a, b = self.numeric(sb.a), self.numeric(sb.b)
            return a[0] | b[0], a[1] & b[1]
        if sb.kind == "not":
            a = self.numeric(sb.a)
            return a[1], a[0]
        if sb.kind == "near":
            return np.zeros(n, bool), np.ones(n, bool)
        raise Unsupported("condition")

    def branch(self, sb):
        if isinstance(sb, bool):
            return sb
        k = sb.kind
        if k == "and":
            return bool(sb.a) and bool(sb.b)
        if k == "or":
            return bool(sb.a) or bool(sb.b)
        if k == "not":
            return not self.branch(sb.a)
        if k == "near":
            return self.branch_near(sb)
        v, op = sb.a, sb.b
        if op in (">", ">=", "!="):
            return not self.branch(SymBool("cmp", v, NEG[op]))
        if v.c < 0 and op in ("<", "<="):
            # normalise so that a < b and b > a share a decision
            return not self.branch(SymBool("cmp", -v, NEG[{"<": ">", "<=": ">="}[op]]))
        s = self.x.sign0(v)
        r = from_sign(s, op)
        if r is not None:
            return r
        key = (v.key()[1], op)
        known = self.path_cache.get(("b", key))
        if known is not None:
            return known
        r = self.decide(sb, key)
        self.path_cache[("b", key)] = r
        return r

    def decide(self, sb, key):
        p = self.path
        idx = len(p.decisions)
        if idx < len(self.prefix):
            r = self.prefix[idx]
        else:
            opts = self.options(sb)
            if not opts:
                raise PathCut("infeasible")
            r = opts[0]
            if len(opts) > 1:
                self.note_fork()
                self.todo.append(p.decisions + [opts[1]])
            if len(opts) == 1:
                # implied: no decision recorded, but replay must not ask again
                p.decisions.append(r)
                self.assume_quiet(sb, r, implied=True)
                return r
        p.decisions.append(r)
        if len(p.decisions) > self.fork_limit * 4:
            raise PathCut("too many decisions")
        self.assume_quiet(sb, r)
        return r

    def options(self, sb):
        t, f = self.numeric(sb)
        m = self.path.mask
        ct, cf = bool(np.any(t & m)), bool(np.any(f & m))
        iseq = sb.kind == "cmp" and sb.b == "=="
        if not ct:
            if iseq and not self.eq_policy:
                ct = False
            else:
                c = self.check([sb])
                ct = c is not False
        if not cf:
            c = self.check([SymBool("not", sb)])
            cf = c is not False
        out = []
        # prefer witnessed branches
        if ct:
            out.append(True)
        if cf:
            out.append(False)
        if iseq and len(out) == 2:
            out = [False, True]
        return out

    def assume_quiet(self, sb, r, implied=False):
        p = self.path
        c = sb if r else SymBool("not", sb)
        if sb.kind == "cmp":
            v, op = sb.a, (sb.b if r else NEG[sb.b])
            if not implied or op in ("==",):
                p.cons.append((v, op))
                self.x.psign = {}
            if op == "==":
                self.solve_equality(v)
                return
        t, f = self.numeric(c)
        m = p.mask & t
        if np.any(m) or not implied:
            p.mask = m

    def solve_equality(self, v):
        """Use v == 0 to eliminate a variable from the sample bank."""
        x = self.x
        for fid, e in v.f.items():
            if e <= 0 or F.static_sign(x, fid) in (1, -1):
                continue
            for i in sorted(x.fgens[fid], key=lambda i: (x.gens[i].name not in self.solve_pref, -i)):
                g = x.gens[i]
                if g.kind != "var" or i in x.subst or P.degree(x.factors[fid], i) != 1:
                    continue
                cs = P.coeffs(x.factors[fid], i)
                ca, fa = x.split(cs[1])
                cb, fb = x.split(cs[0]) if 0 in cs else (0, {})
                if self.depends(cs.get(0, {}), i) or self.depends(cs[1], i):
                    continue
                x.subst[i] = -(V(x, Fraction(cb), fb) / V(x, Fraction(ca), fa))
                x.invalidate()
                self.remask()
                return True
        self.path.mask = np.zeros(x.npts, bool)
        return False

    def depends(self, p, i):
        seen = set()
        todo = set(P.gens_of(p))
        while todo:
            j = todo.pop()
            if j == i:
                return True
            if j in seen:
                continue
            seen.add(j)
            todo |= self.gen_deps(j)
            if j in self.x.subst:
                for f in self.x.subst[j].f:
                    todo |= set(self.x.fgens[f])
            g = self.x.gens[j]
            if g.kind in ("opaque", "argangle", "cos", "sin", "cosh", "sinh") and g.key:
                todo |= self.key_gens(g.key)
        return False

    def key_gens(self, key):
        out = set()

        def walk(k):
            if isinstance(k, frozenset):
                for t in k:
                    if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], int):
                        if t[0] < len(self.x.factors):
                            out.update(self.x.fgens[t[0]])
            elif isinstance(k, tuple):
                for t in k:
                    walk(t)
        walk(key)
        return out

    def remask(self):
        p = self.path
        m = np.ones(self.x.npts, bool)
        for v, op in self.base + p.cons:
            if op == "==":
                continue
            t, _ = self.numeric(SymBool("cmp", v, op))
            m &= t
        for i, s in self.x.subst.items():
            g = self.x.gens[i]
            val = s.num()
            ok = np.isfinite(val.real) & (np.abs(val.imag) < 1e-9 * (1 + np.abs(val.real)))
            if g.lo is not None:
                ok &= val.real > float(g.lo)
            if g.hi is not None:
                ok &= val.real < float(g.hi)
            if g.sign == "+":
                ok &= val.real > 0
            m &= ok
        p.mask = m

    def branch_near(self, sb):
        e, im = sb.a
        key = ("near", e.key()[1], None if im is None else im.key()[1])
        known = self.path_cache.get(("b", key))
        if known is not None:
            return known
        p = self.path
        idx = len(p.decisions)
        if idx < len(self.prefix):
            r = self.prefix[idx]
        else:
            self.note_fork()
            r = True
            self.todo.append(p.decisions + [False])
        p.decisions.append(r)
        if r:
            p.accepts.append((e, im, sb.b))
        else:
            p.rejects.append((e, im, sb.b))
        self.path_cache[("b", key)] = r
        return r

    def choice(self, n, what=""):
        """A nondeterministic choice among n."""
        p = self.path
        idx = len(p.decisions)
        if idx < len(self.prefix):
            r = self.prefix[idx]
        else:
            r = 0
            for k in range(n - 1, 0, -1):
                self.todo.append(p.decisions + [k])
        p.decisions.append(r)
        return r

    def note_fork(self):
        for l in self.loopstack:
            l.forked = True
        if len(self.path.decisions) > self.fork_limit * 4:
            raise PathCut("too many decisions")
        if self.deadline and time.time() > self.deadline:
            raise Budget("time")

    def fork_sign(self, v):
        if self.branch(SymBool("cmp", v, "<")):
            return -1
        if self.branch(SymBool("cmp", v, "==")):
            return 0
        return 1

    def branch_cmp(self, v, op):
        r = decide_static(v, op) if isinstance(v, V) else compare(v, self.x.const(0), op)
        return r if isinstance(r, bool) else self.branch(r)

    def assume(self, cond):
        """Cut the path unless the condition can hold; add it to the constraints."""
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathCut("assumption")
            return
        if cond.kind == "and":
            self.assume(cond.a)
            self.assume(cond.b)
            return
        if cond.kind == "cmp":
            v, op = cond.a, cond.b
            s = from_sign(self.x.sign0(v), op)
            if s is True:
                return
            if s is False:
                raise PathCut("assumption")
            t, _ = self.numeric(cond)
            if not np.any(t & self.path.mask) and self.check([cond]) is False:
                raise PathCut("assumption")
            self.path.cons.append((v, op))
            self.x.psign = {}
            if op == "==":
                self.solve_equality(v)
            else:
                self.path.mask = self.path.mask & t
            return
        if not self.branch(cond):
            raise PathCut("assumption")

    # ------------------------------------------------------------ exploration
    def explore(self, fn, on_path=None):
        """Run fn on every path; returns the list of paths."""
        global E
        prev = E
        E = self
        self.deadline = time.time() + self.budget_s
        try:
            while True:
                try:
                    return self._explore(fn, on_path)
                except Restart:
                    if self.on_restart:
                        self.on_restart()
                    continue
        finally:
            E = prev

    def _explore(self, fn, on_path):
        self.todo = [[]]
        turn = 0
        paths = []
        self.complete = True
        while self.todo:
            if len(paths) >= self.max_paths or time.time() > self.deadline:
                self.complete = False
                break
            n = len(self.todo)
            turn += 1
            # every other path from somewhere else, so that a limited exploration sees different parts
            self.cut = 0
            self.prefix = self.todo.pop(n - 1 if not self.mixed or turn % 2 else (turn * 7919) % n)
            p = self.path = Path()
            self.path_cache = {}
            self.loopstack = []
            self.x.reset_path()
            self.x.invalidate()
            p.mask = np.ones(self.x.npts, bool)
            for v, op in self.base:
                p.mask &= self.numeric(SymBool("cmp", v, op))[0]
            try:
                try:
                    p.outcome = ("return", fn())
                except (PathCut, Unsupported, Restart, Budget):
                    raise
                except RecursionError:
                    p.outcome = ("unsupported", "recursion")
                except Exception as e:
                    p.outcome = ("raise", e)
            except PathCut as e:
                p.outcome = ("cut", str(e))
            except Unsupported as e:
                p.outcome = ("unsupported", str(e))
            except Budget as e:
                p.outcome = ("unsupported", "budget")
                self.complete = False
            self.stats.paths += 1
            paths.append(p)
            if on_path is not None and (p.outcome[0] in ("return", "raise") or (self.report_all and p.outcome[0] == "unsupported")):
                try:
                    on_path(p)
                except PathCut:
                    pass
                except F.Unsupported as e:
                    p.notes.append(("unsupported", str(e)))
                except Budget:
                    self.complete = False
                    p.notes.append(("unsupported", "budget"))
        return paths

    # ------------------------------------------------------------ zero tests
    def is_zero(self, v):
        """Is the value identically zero (given the equalities of the path)?  True or False (not proved)."""
        self.stats.zero_tests += 1
        if isinstance(v, (int, float)):
            return v == 0
        if not v.c:
            return True
        x = self.x
        old = A.MAXTERMS, x.maxprod
        A.MAXTERMS, x.maxprod = EFFORT
        try:
            return self._is_zero(v)
        except TooBig:
            return False
        finally:
            A.MAXTERMS, x.maxprod = old

    def _is_zero(self, v):
        x = self.x
        n = {f: e for f, e in v.f.items() if e > 0}
        if not n:
            return False
        if self.surely_nonzero(V(x, ONEF, n)):
            return False
        N = x.expand(n)
        for _ in range(60):
            if not N:
                return True
            if len(N) > 60000:
                return False
            gl = P.gens_of(N)
            hit = [i for i in x.subst if i in gl]
            if hit:
                i = hit[0]
                N = self.subst_num(N, i, x.subst[i])
                continue
            lets = [i for i in gl if x.gens[i].kind == "let"]
            if not lets:
                # definitions inside the relations of roots: reduce those, newest first
                return False
            if len(lets) > 1:
                need = [i for i in sorted(lets, reverse=True) if self.matters(N, i)]
                lets = need or lets
            i = max(lets)
            N = self.subst_num(N, i, x.gens[i].info["def"])
            c, N = P.primitive(N) if N else (1, N)
            N = self.strip_mono(N)
        return False

    def strip_mono(self, N):
        """Drop monomial factors made of generators that are not zero."""
        if not N:
            return N
        m = 0
        for i, e in P.mono_content(N):
            m |= e << (P.W * i)
        return P.div_mono(N, m) if m else N

    def subst_num(self, N, i, v):
        """Numerator of the polynomial with generator i replaced by a value."""
        x = self.x
        num = P.scale(x.expand({f: e for f, e in v.f.items() if e > 0}), v.c.numerator)
        den = P.scale(x.expand({f: -e for f, e in v.f.items() if e < 0}), v.c.denominator)
        cs = P.coeffs(N, i)
        D = max(cs)
        out = {}
        # Horner in num, with the missing powers of den
        dp = [P.ONE]
        for _ in range(D):
            dp.append(x.pmul(dp[-1], den))
        for e in range(D, -1, -1):
            if out:
                out = x.pmul(out, num)
            if e in cs:
                out = P.add(out, x.pmul(cs[e], dp[D - e]))
        return x.reduce(out)

    def probe(self, n=10):
        """A few samples, on the path when there are any."""
        idx = np.flatnonzero(self.path.mask) if self.path is not None and self.path.mask is not None else np.array([], int)
        if len(idx) >= n:
            return idx[:n], True
        if len(idx):
            return idx, True
        return np.arange(n), False

    def surely_nonzero(self, v):
        """The value is visibly non-zero at every probed sample where it is defined."""
        x = self.x
        idx, _ = self.probe()
        with x.small(idx):
            rel = np.full(x.npts, np.inf)
            ok = np.ones(x.npts, bool)
            for fid in v.f:
                a, m = x.peval(x.factors[fid])
                good = np.isfinite(a) & np.isfinite(m)
                ok &= good
                rel = np.minimum(rel, np.where(good, np.abs(a) / np.maximum(m, 1e-300), 0))
        return bool(np.any(ok)) and bool(np.all(rel[ok] > 1e-7))

    def matters(self, N, i):
        """Does the vanishing of the polynomial rest on the definition of generator i?"""
        x = self.x
        g = x.gens[i]
        idx, _ = self.probe(6)
        with x.small(idx):
            rng = np.random.default_rng(7)
            g.cache = np.exp(rng.normal(0, 1, x.npts)).astype(np.clongdouble)
            a, m = x.peval(N)
            ok = np.isfinite(a) & np.isfinite(m)
            return not np.any(ok) or bool(np.any(np.abs(a[ok]) > 1e-7 * m[ok]))

    def subst(self, v):
        """Apply the substitutions of the path."""
        x = self.x
        out = x.const(v.c)
        for fid, e in v.f.items():
            t = self.subst_poly(x.factors[fid]) if any(i in x.subst for i in x.fgens[fid]) else V(x, ONEF, {fid: 1})
            if not t.c:
                return x.const(0) if e > 0 else NAN
            out = vmul(out, vpowi(t, e))
        return out

    def subst_poly(self, p, table=None):
        x = self.x
        table = x.subst if table is None else table
        out = x.const(0)
        for m, c in p.items():
            t = x.const(c)
            for i in P.gens_of({m: 1}):
                e = (m >> (P.W * i)) & P.MASK
                b = table.get(i)
                if b is None:
                    b = x.gv(x.gens[i])
                t = vmul(t, vpowi(b, e))
            out = out + t
        return out

    def numzero(self, v, mask=None):
        """Is the value visibly non-zero on the samples?  Returns the mask of samples where it is."""
        val = v.num()
        m = self.path.mask if mask is None else mask
        return m & np.isfinite(val.real) & (np.abs(val) > 1e-8)
