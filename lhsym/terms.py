"""Uninterpreted execution: numbers are terms, comparisons of terms are branches.

Every operation on an unknown number makes a term (hash-consed), so that two values are equal whenever their
terms are; nothing is assumed about the operations except that they are functions, hence what is shown holds
for floating-point numbers, NaN included.  Which branches exist together is decided by z3 on the order of the
terms (with NaN): each comparison is an atom over order positions.
"""
import builtins
import math
import os
import sys
import time
import types
import numpy as np
import z3

from .alg import Unsupported

REPO = os.environ.get("LH_REPO", "/repo")


class Cut(Exception):
    """The path is beyond the bounds."""


class Late(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = self.paths = 0
        self.time = 0.0


E = None
TABLE = {}


def ident(a):
    if isinstance(a, (T, B)):
        return (0, a.id)
    if isinstance(a, (tuple, list)):
        return (1, tuple(ident(t) for t in a))
    if isinstance(a, np.ndarray):
        return (2, a.shape, tuple(ident(t) for t in a.ravel()))
    if isinstance(a, dict):
        return (3, tuple((k, ident(v)) for k, v in sorted(a.items())))
    if isinstance(a, (bool, np.bool_)):
        return (4, bool(a))
    if isinstance(a, (int, np.integer)):
        return (5, float(a)) if abs(int(a)) < 2 ** 53 else (6, int(a))
    if isinstance(a, (float, np.floating)):
        return (5, repr(float(a)) if a != a or a == 0 else float(a))
    if isinstance(a, (complex, np.complexfloating)):
        return (7, repr(complex(a)))
    if a is None or isinstance(a, str):
        return (8, a)
    if isinstance(a, type):
        return (9, a.__name__)
    raise Unsupported(f"argument of type {type(a).__name__}")


def mk(op, *args):
    if E is not None:
        E.ops += 1
        if E.ops > E.max_ops:
            raise Cut("operations")
    k = (op, tuple(ident(a) for a in args))
    t = TABLE.get(k)
    if t is None:
        t = TABLE[k] = T(op, args, len(TABLE))
    return t


def has(a):
    if isinstance(a, (T, B)):
        return True
    if isinstance(a, (tuple, list)):
        return any(has(t) for t in a)
    if isinstance(a, np.ndarray):
        return a.dtype == object and any(has(t) for t in a.ravel())
    if isinstance(a, dict):
        return any(has(t) for t in a.values())
    return False


def bin_(op):
    def f(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, B):
            o = int(bool(o))
        return mk(op, self, o)

    def r(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, B):
            o = int(bool(o))
        return mk(op, o, self)
    return f, r


def pyfloat(a):
    return isinstance(a, T) and (a.op == "clock" or a.op in ("add", "sub", "mul", "div", "neg") and all(pyfloat(t) or isinstance(t, (int, float)) for t in a.args))


class T:
    """An unknown number."""
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, op, args, id):
        self.op, self.args, self.id = op, args, id

    def __repr__(self, d=3):
        if self.op == "sym":
            return str(self.args[0])
        if d == 0:
            return "…"
        return self.op + "(" + ", ".join(a.__repr__(d - 1) if isinstance(a, T) else str(a)[:20] for a in self.args) + ")"

    __add__, __radd__ = bin_("add")
    __sub__, __rsub__ = bin_("sub")
    __mul__, __rmul__ = bin_("mul")
    __pow__, __rpow__ = bin_("pow")
    __mod__, __rmod__ = bin_("mod")
    __floordiv__, __rfloordiv__ = bin_("floordiv")
    __matmul__, __rmatmul__ = bin_("matmul")

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if isinstance(o, B):
            o = int(bool(o))
        if pyfloat(self) and isinstance(o, (int, float)) and o == 0:
            raise ZeroDivisionError("float division by zero")
        return mk("div", self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return mk("div", o, self)

    def __neg__(self):
        return mk("neg", self)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk("abs", self)

    def __lt__(self, o):
        return cmp_("lt", self, o)

    def __gt__(self, o):
        return cmp_("lt", o, self)

    def __le__(self, o):
        return cmp_("le", self, o)

    def __ge__(self, o):
        return cmp_("le", o, self)

    def __eq__(self, o):
        if o is self:
            return cmp_("eq", self, o)
        if o is None or isinstance(o, (str, tuple, list, dict)):
            return False
        return cmp_("eq", self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r.__invert__() if isinstance(r, B) else not r

    def __hash__(self):
        return self.id

    def __bool__(self):
        return bool(~cmp_("eq", self, 0.0))

    def __round__(self, n=None):
        return mk("round", self, n)

    def __floor__(self):
        return mk("floor", self)

    def __float__(self):
        raise Unsupported("float of an unknown number")

    def __int__(self):
        raise Unsupported("int of an unknown number")

    def __index__(self):
        raise Unsupported("unknown index")

    def __format__(self, spec):
        return "?"

    @property
    def real(self):
        return mk("real", self)

    @property
    def imag(self):
        return mk("imag", self)

    def conjugate(self):
        return mk("conj", self)

    conj = conjugate

    def item(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


BT = {}


class B:
    """An unknown truth value: an atom or a combination."""

    def __init__(self, op, args, id):
        self.op, self.args, self.id = op, args, id

    def __repr__(self):
        return f"{self.op}{self.args}"

    def __bool__(self):
        return bool(E.decide(self))

    def __invert__(self):
        return mkb("not", self) if self.op != "not" else self.args[0]

    def __and__(self, o):
        return mkb("and", self, o)

    __rand__ = __and__

    def __or__(self, o):
        return mkb("or", self, o)

    __ror__ = __or__

    def __eq__(self, o):
        if isinstance(o, B):
            return bool(self) == bool(o)
        return bool(self) == o

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("B", self.id))

    # used as numbers
    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__


def mkb(op, *args):
    k = (op, tuple(ident(a) for a in args))
    b = BT.get(k)
    if b is None:
        b = BT[k] = B(op, args, -1 - len(BT))
    return b


def cmp_(op, a, b):
    if isinstance(a, B):
        a = int(bool(a))
    if isinstance(b, B):
        b = int(bool(b))
    for t in (a, b):
        if not isinstance(t, T) and isinstance(t, (float, np.floating)) and t != t:
            return False
    if op == "eq" and isinstance(a, T) and isinstance(b, T) and a.id > b.id:
        a, b = b, a
    return mkb(op, a, b)


# ------------------------------------------------------------------ engine
class Path:
    def __init__(self):
        self.decs, self.outcome, self.info = [], None, {}
        self.choices = []


class Engine:
    def __init__(self, budget=10.0, max_paths=2000, max_dec=400, unroll=4):
        self.ops, self.max_ops = 0, 20000
        self.unroll, self.bounded, self.breadth = unroll, False, False
        self.stats = Stats()
        self.budget, self.max_paths, self.max_dec = budget, max_paths, max_dec
        self.complete = True
        self.path = None
        self.zt, self.zn = {}, {}

    # encoding
    def pos(self, t):
        """Order position of a term and whether it is NaN."""
        if isinstance(t, T):
            if t.id not in self.zt:
                self.zt[t.id] = z3.Real(f"t{t.id}")
                self.zn[t.id] = z3.Bool(f"nan{t.id}")
            return self.zt[t.id], self.zn[t.id]
        if isinstance(t, (complex, np.complexfloating)):
            raise Unsupported("order of complex numbers")
        t = float(t)
        if t in (math.inf, -math.inf):
            return self.inf(t > 0), z3.BoolVal(False)
        n, d = t.as_integer_ratio()
        return z3.Q(n, d), z3.BoolVal(False)

    def inf(self, plus):
        return z3.Real("plus_infinity") if plus else z3.Real("minus_infinity")

    def sign(self, t, d=0):
        """Facts about the sign of a term that hold in floating point (NaN apart)."""
        out = []
        if not isinstance(t, T) or d > 3:
            return out
        p, n = self.pos(t)
        a = [x for x in t.args]
        if t.op in ("abs", "sqrt", "norm", "arccos", "cosh", "exp", "acos", "hypot"):
            out.append(z3.Or(n, p >= 0))
        elif t.op == "mul" and len(a) == 2:
            if a[0] is a[1]:
                out.append(z3.Or(n, p >= 0))
            else:
                (x, nx), (y, ny) = self.pos(a[0]), self.pos(a[1])
                out.append(z3.Or(n, z3.And(z3.Implies(z3.Or(z3.And(x >= 0, y >= 0), z3.And(x <= 0, y <= 0)), p >= 0),
                                           z3.Implies(z3.Or(z3.And(x >= 0, y <= 0), z3.And(x <= 0, y >= 0)), p <= 0))))
                out += self.sign(a[0], d + 1) + self.sign(a[1], d + 1)
        elif t.op == "div" and len(a) == 2:
            (x, nx), (y, ny) = self.pos(a[0]), self.pos(a[1])
            out.append(z3.Or(n, z3.And(z3.Implies(z3.Or(z3.And(x >= 0, y > 0), z3.And(x <= 0, y < 0)), p >= 0),
                                       z3.Implies(z3.Or(z3.And(x >= 0, y < 0), z3.And(x <= 0, y > 0)), p <= 0))))
            out += self.sign(a[0], d + 1) + self.sign(a[1], d + 1)
        elif t.op in ("add", "max", "min") and len(a) == 2:
            (x, nx), (y, ny) = self.pos(a[0]), self.pos(a[1])
            out.append(z3.Or(n, z3.And(z3.Implies(z3.And(x >= 0, y >= 0), p >= 0), z3.Implies(z3.And(x <= 0, y <= 0), p <= 0),
                                       z3.Implies(z3.Or(z3.And(x < 0, y <= 0), z3.And(x <= 0, y < 0)), p < 0))))
            out += self.sign(a[0], d + 1) + self.sign(a[1], d + 1)
        elif t.op == "neg":
            (x, nx) = self.pos(a[0])
            out.append(z3.Or(n, p == -x))
            out += self.sign(a[0], d + 1)
        elif t.op in ("cos", "sin", "tanh", "sign"):
            out.append(z3.Or(n, z3.And(p >= -1, p <= 1)))
        if t.op in ("abs", "neg", "mul", "add", "div", "sub"):
            for x in a:
                out.append(z3.Implies(self.pos(x)[1], n))
        return out

    def axioms(self, t):
        return self.sign(t)

    def zb(self, b):
        if isinstance(b, (bool, np.bool_)):
            return z3.BoolVal(bool(b))
        if isinstance(b, T):
            return self.zb(~cmp_("eq", b, 0.0))
        o, a = b.op, b.args
        if o == "not":
            return z3.Not(self.zb(a[0]))
        if o == "and":
            return z3.And([self.zb(t) for t in a])
        if o == "or":
            return z3.Or([self.zb(t) for t in a])
        if o in ("lt", "le", "eq"):
            (p, n), (q, m) = self.pos(a[0]), self.pos(a[1])
            c = {"lt": p < q, "le": p <= q, "eq": p == q}[o]
            return z3.And(z3.Not(n), z3.Not(m), c)
        if o in ("isfinite", "isnan", "isinf") and isinstance(a[0], T):
            p, n = self.pos(a[0])
            if o == "isnan":
                return n
            if o == "isfinite":
                return z3.And(z3.Not(n), z3.Bool(f"fin{a[0].id}"))
            return z3.And(z3.Not(n), z3.Not(z3.Bool(f"fin{a[0].id}")))
        return z3.Bool(f"b{-b.id}")

    def terms(self, b, out):
        for t in b.args if isinstance(b, B) else ():
            if isinstance(t, T):
                out.append(t)
            elif isinstance(t, B):
                self.terms(t, out)
        return out

    def lit(self, b):
        """The z3 form of a truth value, with the facts about its terms (cached)."""
        r = self.lits.get(b.id)
        if r is None:
            ax = [a for t in self.terms(b, []) for a in self.axioms(t)]
            z = self.zb(b)
            r = self.lits[b.id] = (z, z3.Not(z), ax)
        return r

    def push(self, b, val):
        z, nz, ax = self.lit(b)
        if ax:
            self.s.add(*ax)
        self.s.add(z if val else nz)

    def feasible(self, b, val):
        z, nz, ax = self.lit(b)
        t0 = time.time()
        r = self.s.check(*ax, z if val else nz)
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        k = str(r)
        setattr(self.stats, k, getattr(self.stats, k) + 1)
        return k != "unsat"

    def place(self):
        f = sys._getframe(2)
        while f is not None and f.f_code.co_filename == __file__:
            f = f.f_back
        return (f.f_code, f.f_lasti), (f, f.f_lasti)

    def decide(self, b):
        neg = False
        if b.op == "not":
            b, neg = b.args[0], True
        memo = self.memo.get(b.id)
        if memo is None:
            p = self.path
            k = len(p.decs)
            if k >= self.max_dec:
                raise Cut("decisions")
            w, at = self.place()
            if k < len(self.prefix):
                v = self.prefix[k]
            else:
                if time.time() > self.deadline:
                    self.complete = False
                    raise Late()
                t, f = self.feasible(b, True), self.feasible(b, False)
                if not t and not f:
                    raise Cut("infeasible")
                v = t
                if t and f:
                    if self.breadth:
                        v = self.seen.get((w, True), 0) <= self.seen.get((w, False), 0)
                    r = self.runs.get(at)
                    if r is not None and r[1] >= self.unroll:
                        v = not r[0]        # leave the loop: beyond the bound
                        p.info["unrolled"] = True
                        self.bounded = True
                    else:
                        self.seen[(w, v)] = self.seen.get((w, v), 0) + 1
                        self.todo.append(([d[1] for d in p.decs] + [not v], (w, not v)))
            r = self.runs.get(at)
            self.last = (w, v)
            self.runs[at] = (v, r[1] + 1) if r is not None and r[0] == v else (v, 1)
            p.decs.append((b, v))
            if k >= self.level:
                self.s.push()
                self.push(b, v)
                self.level += 1
            self.memo[b.id] = memo = v
        return memo != neg

    def assume(self, b):
        if isinstance(b, B):
            if self.sure:
                if not self.feasible(b, True):
                    raise Cut("infeasible")
                self.push(b, True)
            if b.op == "not":
                self.memo[b.args[0].id] = False
            else:
                self.memo[b.id] = True
        elif not b:
            raise Cut("infeasible")

    def explore(self, fn, on_path, base=()):
        global E
        prev, E = E, self
        self.deadline = time.time() + self.budget
        self.todo, self.seen = [([], None)], {}
        self.s, self.lits, self.path, self.last = None, {}, None, None
        n = 0
        try:
            while self.todo:
                if n >= self.max_paths or time.time() > self.deadline:
                    self.complete = False
                    break
                if self.breadth and n % 3:
                    # the branch of the program taken least often so far
                    i = min(range(len(self.todo)), key=lambda i: (self.seen.get(self.todo[i][1], 0), -i))
                    self.prefix, w = self.todo.pop(i)
                else:
                    self.prefix, w = self.todo.pop()
                self.seen[w] = self.seen.get(w, 0) + 1
                cur = [d[1] for d in self.path.decs] if self.path else []
                p = self.path = Path()
                self.memo, self.runs = {}, {}
                if self.s is None:
                    self.s = z3.SimpleSolver()
                    self.s.set("timeout", 500)
                    big = z3.RealVal(2 ** 1100)
                    self.s.add(self.inf(True) > big, self.inf(False) < -big)
                    self.level, fresh = 0, True
                else:
                    keep = 0
                    while keep < self.level and keep < len(self.prefix) and self.prefix[keep] == cur[keep]:
                        keep += 1
                    if self.level > keep:
                        self.s.pop(self.level - keep)
                        self.level = keep
                    fresh = False
                self.clock = self.ops = 0
                self.sure = fresh
                try:
                    for b in base:
                        self.assume(b)
                    p.outcome = ("return", fn())
                except Cut as e:
                    p.outcome = ("cut", str(e))
                except Late:
                    break
                except Unsupported as e:
                    p.outcome = ("unsupported", str(e))
                except RecursionError:
                    p.outcome = ("unsupported", "recursion")
                except Exception as e:
                    p.outcome = ("raise", e)
                n += 1
                self.stats.paths += 1
                if p.info.get("raised") and self.last is not None:
                    self.seen[self.last] = self.seen.get(self.last, 0) + 6      # look elsewhere
                try:
                    on_path(p)
                except (Cut, Late):
                    pass
        finally:
            E = prev
        return n

    def model(self, inputs, extra=()):
        """Values of the input symbols on this path that respect the order of the conditions (best effort)."""
        if self.s.check(*extra) != z3.sat:
            return None
        m = self.s.model()
        out = {}
        for k, t in inputs.items():
            if isinstance(t, T) and t.id in self.zt:
                v = m.eval(self.zt[t.id], model_completion=True)
                try:
                    out[k] = float(v.as_fraction())
                except Exception:
                    pass
        return out


# ------------------------------------------------------------------ arrays
class TA(np.ndarray):
    """Object arrays whose comparisons stay symbolic."""

    def _c(self, o, f):
        r = np.frompyfunc(f, 2, 1)(np.asarray(self), np.asarray(o, dtype=object) if isinstance(o, np.ndarray) else o)
        return r.view(TA) if isinstance(r, np.ndarray) else r

    def __eq__(self, o):
        return self._c(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._c(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def all(self, *a, **k):
        return n_all(self)

    def any(self, *a, **k):
        return n_any(self)

    def astype(self, *a, **k):
        return self if k.get("copy") is False else self.copy()

    def dot(self, o):
        return np.matmul(np.asarray(self, dtype=object), np.asarray(o, dtype=object))

    __hash__ = None


def arr(items, *a, **k):
    if isinstance(items, np.ndarray):
        if k.get("copy", True) is not True and isinstance(items, TA):
            return items
        r = np.array(items, dtype=object, copy=True)
    else:
        r = np.array([list(t) if isinstance(t, np.ndarray) else t for t in items] if isinstance(items, (list, tuple)) else items, dtype=object)
    return r.view(TA)


def n_asarray(a, *r, **k):
    if isinstance(a, np.ndarray):
        return a
    return arr(a)


def logic(items, op):
    flat = []
    for t in items:
        if isinstance(t, (bool, np.bool_, int, float)) and not isinstance(t, (T, B)):
            t = bool(t)
            if t == (op == "or"):
                return t
            continue
        flat.append(t if isinstance(t, B) else ~cmp_("eq", t, 0.0))
    if not flat:
        return op == "and"
    return flat[0] if len(flat) == 1 else mkb(op, *flat)


def items_of(a):
    if isinstance(a, np.ndarray):
        return list(a.ravel())
    if isinstance(a, (list, tuple)) or hasattr(a, "__next__"):
        return [s for t in a for s in items_of(t)]
    return [a]


def n_all(a, *r, **k):
    return logic(items_of(a), "and")


def n_any(a, *r, **k):
    return logic(items_of(a), "or")


def n_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    """|a - b| <= atol + rtol |b|, as numpy defines it."""
    f = lambda u, v: cmp_("le", mk("abs", mk("sub", u, v)), atol + rtol * (mk("abs", v) if has(v) else abs(v))) if has([u, v, rtol, atol]) else bool(np.isclose(u, v, rtol=rtol, atol=atol))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return sq(np.frompyfunc(f, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    return f(a, b)


def sq(a):
    return a.view(TA) if isinstance(a, np.ndarray) else a


NIN = {n: getattr(np, n).nin for n in dir(np) if isinstance(getattr(np, n), np.ufunc)}


def elementwise(name, bool_=False):
    def one(*a):
        if not has(a):
            return getattr(np, name)(*a)
        return mkb(name, *a) if bool_ else mk(name, *a)

    def f(*a, **k):
        k.pop("dtype", None)
        out = k.pop("out", None)
        if out is None and len(a) > max(1, NIN.get(name, 9)) and isinstance(a[-1], np.ndarray):
            a, out = a[:-1], a[-1]
        if out is not None:
            out = out[0] if isinstance(out, tuple) else out
            r = f(*a, **k)
            out[...] = r
            return out
        if k:
            return mkb(name, *a, k) if bool_ else mk(name, *a, k)
        if any(isinstance(t, (np.ndarray, list, tuple)) for t in a):
            return sq(np.frompyfunc(one, len(a), 1)(*[np.asarray(t, dtype=object) if isinstance(t, (list, tuple, np.ndarray)) else t for t in a]))
        return one(*a)
    return f


CMP = {"equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b, "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b,
       "greater": lambda a, b: a > b, "greater_equal": lambda a, b: a >= b, "logical_and": lambda a, b: logic([a, b], "and"),
       "logical_or": lambda a, b: logic([a, b], "or")}


def n_norm(a, *r, **k):
    return mk("norm", *items_of(a))


def n_dot(a, b, *r):
    a, b = n_asarray(a), n_asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        t = a[0] * b[0]
        for u, v in zip(a[1:], b[1:]):
            t = t + u * v
        return t
    return np.matmul(np.asarray(a, dtype=object), np.asarray(b, dtype=object)).view(TA)


def n_cross(a, b, *r, **k):
    a, b = n_asarray(a), n_asarray(b)
    return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def n_where(c, *r):
    if not r:
        raise Unsupported("where with one argument")
    return sq(np.frompyfunc(lambda c, a, b: a if c else b, 3, 1)(c, *r)) if isinstance(c, np.ndarray) else (r[0] if c else r[1])


class Numpy(types.ModuleType):
    SHORT_GRID = 3

    def __init__(self):
        super().__init__("numpy")
        self.linalg = types.ModuleType("numpy.linalg")
        self.linalg.norm = self.guard(np.linalg.norm, n_norm)
        for n in ("det", "inv", "solve", "eigvals"):
            setattr(self.linalg, n, self.guard(getattr(np.linalg, n), lambda *a, _n=n, **k: (_ for _ in ()).throw(Unsupported(_n))))
        d = self.__dict__
        d.update(array=arr, asarray=n_asarray, asanyarray=n_asarray, ascontiguousarray=n_asarray, atleast_1d=n_asarray, copy=arr,
                 zeros=lambda s, *a, **k: self.full(s, 0.0), ones=lambda s, *a, **k: self.full(s, 1.0), empty=lambda s, *a, **k: self.full(s, 0.0),
                 zeros_like=lambda a, *r, **k: self.full(np.shape(a), 0.0), ones_like=lambda a, *r, **k: self.full(np.shape(a), 1.0),
                 empty_like=lambda a, *r, **k: self.full(np.shape(a), 0.0),
                 eye=lambda n, *a, **k: arr(np.eye(n)), identity=lambda n, *a, **k: arr(np.eye(n)),
                 cross=n_cross, dot=n_dot, inner=n_dot, vdot=n_dot, matmul=n_dot, all=n_all, any=n_any, where=n_where,
                 sum=lambda a, *r, **k: mk("sum", *items_of(a)) if has(items_of(a)) else np.sum(a, *r, **k),
                 float64=lambda a=0.0: a if has(a) else np.float64(a), float32=lambda a=0.0: a if has(a) else np.float64(a),
                 int64=lambda a=0: mk("int", a) if has(a) else np.int64(a), bool_=lambda a: bool(a),
                 complex128=lambda a=0.0: mk("complex", a) if has(a) else np.complex128(a),
                 linspace=self.linspace, max=self.red("max"), min=self.red("min"), amax=self.red("max"), amin=self.red("min"),
                 isclose=n_isclose, allclose=lambda a, b, rtol=1e-5, atol=1e-8, **k: n_all(n_isclose(a, b, rtol, atol)),
                 array_equal=lambda a, b, **k: n_all(n_asarray(a) == n_asarray(b)) if np.shape(a) == np.shape(b) else False,
                 stack=lambda a, *r, **k: arr(np.stack([np.asarray(t, dtype=object) for t in a], *r, **k)),
                 concatenate=lambda a, *r, **k: arr(np.concatenate([np.asarray(t, dtype=object) for t in a], *r, **k)),
                 hstack=lambda a: arr(np.hstack([np.asarray(t, dtype=object) for t in a])), vstack=lambda a: arr(np.vstack([np.asarray(t, dtype=object) for t in a])))
        for n, f in CMP.items():
            d[n] = (lambda f: lambda a, b: sq(np.frompyfunc(f, 2, 1)(a, b)) if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else f(a, b))(f)
        for n in ("isfinite", "isnan", "isinf"):
            d[n] = elementwise(n, True)
        d["sort"] = lambda a, *r: arr(sorted(a))

    def full(self, s, v, *a, **k):
        r = np.empty(s, dtype=object)
        r[...] = v
        return r.view(TA)

    def linspace(self, a, b, n=50, *r, **k):
        n = min(n, self.SHORT_GRID)
        if has([a, b]):
            return arr([a + (b - a) * (i / (n - 1)) for i in range(n)])
        return np.linspace(a, b, n)

    def red(self, n):
        return lambda a, *r, **k: mk(n, *items_of(a)) if has(items_of(a)) else getattr(np, n)(a, *r, **k)

    @staticmethod
    def guard(real, own):
        def f(*a, **k):
            if has(list(a)) or has(k) or any(isinstance(t, TA) for t in a):
                return own(*a, **k)
            return real(*a, **k)
        return f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "random":
            raise Unsupported("random numbers")
        if n == "finfo":
            return lambda a=float: np.finfo(float)
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            f = elementwise(n)
            self.__dict__[n] = f
            return f
        if isinstance(v, type) or not callable(v):
            return v
        if n in ("clip", "sign", "unwrap", "round", "around", "real", "imag", "angle", "real_if_close", "nan_to_num"):
            return elementwise(n)
        return self.guard(v, lambda *a, **k: (_ for _ in ()).throw(Unsupported("numpy." + n)))


class Math(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(math, n)
        if not callable(v):
            return v
        if n in ("isfinite", "isnan", "isinf"):
            return elementwise(n, True)
        if n == "isclose":
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: mkb("misclose", a, b, rel_tol, abs_tol) if has([a, b]) else math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

        def f(*a):
            return mk({"fabs": "abs"}.get(n, n), *a) if has(list(a)) else v(*a)
        return f


# ------------------------------------------------------------------ scipy by contract
class Res:
    pass


def finger(f, a, b, args):
    """A term that stands for the function: its value at the ends and at an unknown point."""
    fa, fb = f(a, *args), f(b, *args)
    w = mk("probe", a, b)
    return fa, fb, f(w, *args)


def brentq(f, a, b, args=(), xtol=2e-12, rtol=8.9e-16, maxiter=100, full_output=False, disp=True, **k):
    args = args if isinstance(args, tuple) else (args,)
    fa, fb, fw = finger(f, a, b, args)
    s = fa * fb
    if isinstance(s, T) and bool(cmp_("lt", 0.0, s)) or not isinstance(s, T) and s > 0:
        raise ValueError("f(a) and f(b) must have different signs")
    key = (fa, fb, fw, a, b, xtol, rtol, maxiter)
    conv = bool(mkb("converged", *key))
    r = mk("root", *key)
    if not conv and disp:
        raise RuntimeError("Failed to converge")
    if full_output:
        return r, results(r, key, conv)
    return r


def results(r, key, conv):
    o = Res()
    o.root = o.x = r
    o.iterations = o.nit = mk("iterations", *key)
    o.function_calls = mk("calls", *key)
    o.converged = o.success = conv
    o.flag = "converged" if conv else "no"
    return o


def root_scalar(f, args=(), method=None, bracket=None, fprime=None, fprime2=None, x0=None, x1=None, xtol=None, rtol=None, maxiter=None, options=None):
    if bracket is not None:
        r, o = brentq(f, bracket[0], bracket[1], args, xtol, rtol, maxiter, True, False)
        return o
    args = args if isinstance(args, tuple) else (args,)
    key = (f(x0, *args), f(mk("probe", x0, x1), *args), x0, x1, xtol, rtol, maxiter)
    return results(mk("root", *key), key, bool(mkb("converged", *key)))


def newton(f, x0, fprime=None, args=(), tol=1.48e-8, maxiter=50, fprime2=None, x1=None, rtol=0.0, full_output=False, disp=True):
    args = args if isinstance(args, tuple) else (args,)
    key = (f(x0, *args), f(mk("probe", x0, x1), *args), x0, x1, tol, rtol, maxiter)
    conv = bool(mkb("converged", *key))
    r = mk("root", *key)
    if not conv and disp:
        raise RuntimeError("Failed to converge")
    return (r, results(r, key, conv)) if full_output else r


def minimize_scalar(f, bracket=None, bounds=None, args=(), method=None, tol=None, options=None):
    args = args if isinstance(args, tuple) else (args,)
    a, b = bounds if bounds is not None else bracket[:2] if bracket is not None else (0.0, 1.0)
    key = (*finger(f, a, b, args), a, b, tol, options)
    r = mk("argmin", *key)
    o = results(r, key, True)
    o.fun = f(r, *args)
    return o


# ------------------------------------------------------------------ loader
def perf_counter():
    E.clock += 1
    return mk("clock", E.clock)


class Jit:
    def __call__(self, *a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f


CODE = {}


class Loader:
    def __init__(self, root=None):
        self.root = root or os.path.join(REPO, "src")
        self.mods = {}
        self.np = Numpy()
        self.math = Math("math")
        jit = Jit()

        def mod(n, **d):
            m = types.ModuleType(n)
            m.__dict__.update(d)
            return m
        br = dict(brentq=brentq, brenth=brentq, bisect=brentq, ridder=brentq, toms748=brentq, root_scalar=root_scalar, minimize_scalar=minimize_scalar, newton=newton)
        sp = mod("scipy.special")
        import scipy.special as sc

        def native(f):
            def g(*a, **k):
                return mk(f.__name__, *a) if has(list(a)) else f(*a, **k)
            return g
        for n in ("factorial", "poch", "gamma", "hyp2f1", "comb"):
            setattr(sp, n, native(getattr(sc, n)))
        op = mod("scipy.optimize", **br)
        self.shims = {"numpy": self.np, "numpy.linalg": self.np.linalg, "math": self.math, "cmath": self.math,
                      "time": mod("time", perf_counter=perf_counter, time=perf_counter, monotonic=perf_counter, process_time=perf_counter, perf_counter_ns=perf_counter),
                      "numba": mod("numba", njit=jit, jit=jit, vectorize=jit, prange=range, float64=jit, int64=jit, boolean=jit),
                      "scipy": mod("scipy", optimize=op, special=sp), "scipy.optimize": op, "scipy.special": sp}
        bd = {k: getattr(builtins, k) for k in dir(builtins)}
        bd["__import__"] = self.imp
        bd["float"] = FloatT
        bd["int"] = IntT
        bd["complex"] = ComplexT
        bd["all"] = lambda it: builtins.all(it)
        bd["print"] = lambda *a, **k: None
        self.builtins = bd

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.shims:
            return self.shims[name] if fromlist or "." not in name else self.shims[name.split(".")[0]]
        if name == "lamberthub" or name.startswith("lamberthub."):
            m = self.load(name)
            for f in fromlist or ():
                if not hasattr(m, f) and self.find(name + "." + f):
                    setattr(m, f, self.load(name + "." + f))
            return m if fromlist else self.load(name.split(".")[0])
        if name.split(".")[0] in ("scipy", "numba", "numpy", "random"):
            raise Unsupported("import " + name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            raise ImportError(name)
        path, ispkg = f
        if "." in name:
            self.load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if path not in CODE:
            CODE[path] = compile(open(path).read(), path, "exec")
        exec(CODE[path], m.__dict__)
        if "." in name:
            setattr(self.mods[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m

    def state(self):
        """Everything the modules hold besides code, as a comparable value."""
        seen, alive = {}, []

        def snap(o, d=0):
            if isinstance(o, (T, B)):
                return ("t", o.id)
            if o is None or isinstance(o, (bool, int, float, complex, str, bytes)):
                return (type(o).__name__, repr(o))
            if id(o) in seen:
                return ("seen", seen[id(o)])
            seen[id(o)] = len(seen)
            alive.append(o)
            if isinstance(o, np.ndarray):
                return ("array", o.shape, tuple(snap(t, d + 1) for t in o.ravel()))
            if isinstance(o, (list, tuple)):
                return (type(o).__name__, tuple(snap(t, d + 1) for t in o))
            if isinstance(o, dict):
                return ("dict", tuple((snap(k, d + 1), snap(v, d + 1)) for k, v in o.items()))
            if isinstance(o, (set, frozenset)):
                return ("set", len(o), tuple(sorted(map(repr, (snap(t, d + 1) for t in o)))))
            if hasattr(o, "cache_info"):
                return ("cache", repr(o.cache_info()), snap(getattr(o, "__wrapped__", None), d + 1))
            if isinstance(o, types.FunctionType):
                c = tuple(snap(x.cell_contents, d + 1) for x in o.__closure__ or () if _filled(x))
                return ("function", o.__name__, snap(o.__defaults__, d + 1), snap(o.__kwdefaults__, d + 1), c, snap({k: v for k, v in o.__dict__.items()}, d + 1))
            if isinstance(o, types.ModuleType):
                return ("module", o.__name__)
            if isinstance(o, type):
                if (o.__module__ or "").startswith("lamberthub"):
                    return ("class", o.__name__, snap({k: v for k, v in vars(o).items() if not k.startswith("__")}, d + 1))
                return ("class", o.__name__)
            if (type(o).__module__ or "").startswith("lamberthub") and hasattr(o, "__dict__"):
                return ("object", type(o).__name__, snap(vars(o), d + 1))
            if hasattr(o, "__dict__") and not callable(o):
                return ("object", type(o).__name__, snap({k: v for k, v in vars(o).items()}, d + 1) if d < 6 else None)
            if type(o).__name__ in ("deque", "count", "cycle", "OrderedDict", "defaultdict", "Counter"):
                return ("it", repr(o))
            return ("other", type(o).__name__)
        return tuple((n, snap({k: v for k, v in m.__dict__.items() if k not in ("__builtins__", "__cached__", "__spec__", "__loader__")}))
                     for n, m in sorted(self.mods.items()))


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


class _M(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.base) or (cls.t and isinstance(o, T))

    def __subclasscheck__(cls, o):
        return issubclass(o, cls.base)


class FloatT(metaclass=_M):
    base, t = float, True

    def __new__(cls, a=0.0):
        if isinstance(a, np.ndarray) and a.size == 1:
            a = a.ravel()[0]
        if isinstance(a, B):
            a = bool(a)
        return a if isinstance(a, T) else float(a)


class IntT(metaclass=_M):
    base, t = int, False

    def __new__(cls, a=0, *r):
        if isinstance(a, B):
            a = bool(a)
        return mk("int", a) if isinstance(a, T) else int(a, *r)


class ComplexT(metaclass=_M):
    base, t = complex, False

    def __new__(cls, a=0.0, b=0.0):
        return mk("complex", a, b) if has([a, b]) else complex(a, b)


def sym(name):
    return mk("sym", name)


def vec(name, n=3):
    return arr([sym(f"{name}{i}") for i in range(n)])
