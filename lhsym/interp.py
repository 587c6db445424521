"""Loads the real sources of /repo and runs them over symbolic values.

The sources are parsed on every run.  The transformation keeps the code as it is, except that number
literals become exact, / ** % // go through exact versions, and loops are given to the engine, which
unrolls them while their exit is decided and otherwise runs one arbitrary iteration from an
arbitrary state.  numpy, numba, scipy.optimize, math and time are replaced by symbolic stand-ins.
"""
import ast
import builtins
import copy
import functools
import os
import sys
import types
from fractions import Fraction
import numpy as np

from . import engine as EN
from . import alg as A
from . import funcs as F
from .alg import V, Unsupported, let, terms, coerce, vmul, vpowi, vdiv, ONEF
from .engine import SymBool, AbsVal, PathCut, Restart, compare, is_tiny
from .funcs import NAN, INF, is_special

REPO = os.environ.get("LH_REPO", "/repo")
UNB = object()


def X():
    return EN.E.x


def const(c):
    return X().const(c)


# ------------------------------------------------------------------------------- complex
class CV:
    """A complex value with symbolic parts."""
    __slots__ = ("real", "imag")

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @staticmethod
    def of(a):
        if isinstance(a, CV):
            return a
        if isinstance(a, complex):
            return CV(tov(a.real), tov(a.imag))
        a = tov(a)
        if a is NotImplemented:
            return a
        return CV(a, const(0))

    def __add__(self, o):
        o = CV.of(o)
        return o if o is NotImplemented else CV(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __neg__(self):
        return CV(-self.real, -self.imag)

    def __sub__(self, o):
        o = CV.of(o)
        return o if o is NotImplemented else CV(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        return CV.of(o) - self

    def __mul__(self, o):
        o = CV.of(o)
        if o is NotImplemented:
            return o
        return CV(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = CV.of(o)
        if o is NotImplemented:
            return o
        if zero(o.imag):
            return CV(div(self.real, o.real), div(self.imag, o.real))
        if zero(o.real):
            return CV(div(self.imag, o.imag), -div(self.real, o.imag))
        d = o.real * o.real + o.imag * o.imag
        n = self * CV(o.real, -o.imag)
        return CV(n.real / d, n.imag / d)

    def __rtruediv__(self, o):
        return CV.of(o) / self

    def conjugate(self):
        return CV(self.real, -self.imag)

    def __abs__(self):
        if zero(self.imag):
            return AbsVal(self.real)
        if zero(self.real):
            return AbsVal(self.imag)
        return AbsVal(self.real, self.imag)

    def __eq__(self, o):
        o = CV.of(o)
        a, b = compare(self.real, o.real, "=="), compare(self.imag, o.imag, "==")
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
        return SymBool("and", a, b)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else SymBool("not", r)

    __hash__ = None

    def __repr__(self):
        return f"CV({self.real},{self.imag})"


def zero(v):
    return isinstance(v, V) and not v.c


def tov(a):
    if isinstance(a, V):
        return a
    if isinstance(a, AbsVal):
        return a.to_V()
    if isinstance(a, SymBool):
        return const(1) if bool(a) else const(0)
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return tov(a.item())
    return coerce(X(), a)


# ------------------------------------------------------------------------------- arrays
def _lift(fn, n):
    return np.frompyfunc(fn, n, 1)


class Arr(np.ndarray):
    """Object array whose comparisons stay symbolic."""

    def _c(self, o, op):
        f = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
             "==": lambda a, b: lazy_eq(a, b), "!=": lambda a, b: lazy_ne(a, b)}[op]
        r = np.frompyfunc(f, 2, 1)(np.asarray(self, dtype=object), np.asarray(o, dtype=object))
        return mk(r)

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        return self._c(o, "==")

    def __ne__(self, o):
        return self._c(o, "!=")

    __hash__ = None

    def all(self, *a, **k):
        return np_all(self)

    def any(self, *a, **k):
        return np_any(self)

    def copy(self, *a, **k):
        return mk(np.array(np.asarray(self), dtype=object, copy=True))

    def dot(self, o):
        if self.ndim == 1 and np.ndim(o) == 1:
            return np_dot(self, o)
        return mk(np.asarray(self, dtype=object) @ np.asarray(o, dtype=object))

    def astype(self, *a, **k):
        return self.copy()

    def sum(self, *a, **k):
        return np_sum(self)

    def max(self, *a, **k):
        return np_max(self)

    def min(self, *a, **k):
        return np_min(self)

    def item(self, *a):
        return self[a] if a else np.asarray(self).item()


def lazy_eq(a, b):
    if isinstance(a, (V, CV, AbsVal)):
        return a == b
    if isinstance(b, (V, CV, AbsVal)):
        return b == a
    return a == b


def lazy_ne(a, b):
    if isinstance(a, (V, CV, AbsVal)):
        return a != b
    if isinstance(b, (V, CV, AbsVal)):
        return b != a
    return a != b


def mk(a):
    if isinstance(a, np.ndarray):
        return a.view(Arr)
    return a


def arr(a, dtype=None):
    if isinstance(a, np.ndarray):
        return mk(np.array(np.asarray(a), dtype=object, copy=True))
    shape, flat = flatten(a)
    out = np.empty(len(flat), dtype=object)
    for i, v in enumerate(flat):
        if isinstance(v, AbsVal):
            v = v.to_V()
        out[i] = coerce(X(), v) if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool) else v
    return mk(out.reshape(shape))


def flatten(a):
    if isinstance(a, np.ndarray):
        return a.shape, list(np.asarray(a).ravel())
    if isinstance(a, (list, tuple)):
        parts = [flatten(t) for t in a]
        if not parts:
            return (0,), []
        return (len(parts),) + parts[0][0], [v for _, f in parts for v in f]
    return (), [a]


def ew(fn):
    """Elementwise on arrays, plain on scalars."""
    def g(a, *r, **kw):
        if isinstance(a, (list, tuple)):
            a = arr(a)
        if isinstance(a, np.ndarray):
            if a.ndim == 0:
                return fn(a.item(), *r)
            return mk(np.frompyfunc(lambda t: fn(t, *r), 1, 1)(np.asarray(a)))
        return fn(a, *r)
    return g


def ew2(fn):
    def g(a, b, **kw):
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            return mk(np.frompyfunc(fn, 2, 1)(np.asarray(arr(a) if isinstance(a, (list, tuple)) else a, dtype=object),
                                             np.asarray(arr(b) if isinstance(b, (list, tuple)) else b, dtype=object)))
        return fn(a, b)
    return g


# ------------------------------------------------------------------------------- scalar functions
def real_fn(fr, fim=None, fgen=None):
    def f(a):
        if isinstance(a, CV):
            if zero(a.imag):
                r = f(a.real)
                return r if isinstance(r, CV) else CV(r, const(0))
            if fim is not None and zero(a.real):
                return fim(a.imag)
            if fgen is not None:
                return fgen(a.real, a.imag)
            raise Unsupported("function of a general complex number")
        a = tov(a)
        if a is NotImplemented:
            raise Unsupported("argument")
        if is_special(a):
            return spec(fr, a)
        return fr(a)
    return ew(f)


def spec(fr, a):
    if a != a:
        return a
    try:
        return float({"vsqrt": np.sqrt, "vexp": np.exp, "vlog": np.log, "varctan": np.arctan, "vtanh": np.tanh, "vcosh": np.cosh,
                      "vsinh": np.sinh}[fr.__name__](a))
    except KeyError:
        return NAN


def csqrt(a):
    if isinstance(a, CV):
        if zero(a.imag):
            if EN.E.x.branch_cmp(a.real, ">="):
                return CV(F.vsqrt(a.real), const(0))
            return CV(const(0), F.vsqrt(-a.real))
        # principal root: sqrt((|a| + re)/2) + i sign(im) sqrt((|a| - re)/2)
        m = F.vsqrt(a.real * a.real + a.imag * a.imag)
        h = Fraction(1, 2)
        im = F.vsqrt((m - a.real) * h)
        return CV(F.vsqrt((m + a.real) * h), im if EN.E.x.branch_cmp(a.imag, ">") else -im)
    a = tov(a)
    if is_special(a):
        return a if a > 0 else NAN
    if EN.E.x.branch_cmp(a, "<"):
        return NAN
    return F.vsqrt(a)


def clog(a):
    if isinstance(a, CV):
        if zero(a.imag):
            if EN.E.x.branch_cmp(a.real, ">"):
                return CV(F.vlog(a.real), const(0))
            return CV(F.vlog(-a.real), EN.E.x.pi())
        return CV(F.vlog(F.vsqrt(a.real * a.real + a.imag * a.imag)), F.varctan2(a.imag, a.real))
    a = tov(a)
    if is_special(a):
        return a
    return F.vlog(a)


def cexp(a):
    if isinstance(a, CV):
        m = F.vexp(a.real)
        c, s = F.cossin(a.imag)
        return CV(m * c, m * s)
    a = tov(a)
    if is_special(a):
        return a if a > 0 or a != a else const(0)
    return F.vexp(a)


def carccos(a):
    if isinstance(a, CV):
        if not zero(a.imag):
            raise Unsupported("arccos of a complex number")
        x = EN.E.x
        if x.branch_cmp(a.real - 1, ">"):
            # principal value: numpy gives -i*acosh or +i*acosh by the sign of the zero imaginary part
            return CV(const(0), -F.varccosh(a.real))
        if x.branch_cmp(a.real + 1, "<"):
            return CV(x.pi(), -F.varccosh(-a.real))
        return CV(F.varccos(a.real), const(0))
    a = tov(a)
    return NAN if is_special(a) else F.varccos(a)


def np_abs(a):
    if isinstance(a, AbsVal):
        return a
    if isinstance(a, CV):
        return abs(a)
    a = tov(a)
    if is_special(a):
        return abs(a)
    s = a.x.sign0(a)
    if s in (1, "0+", 0):
        return a
    if s in (-1, "0-"):
        return -a
    return AbsVal(a)


def np_sign(a):
    if isinstance(a, CV):
        if zero(a.imag):
            return CV(np_sign(a.real), const(0))
        return CV(np_sign(a.real), const(0))
    a = tov(a)
    if is_special(a):
        return a if a != a else (1.0 if a > 0 else -1.0)
    s = a.x.sign0(a)
    if s in (1, -1, 0):
        return const(s)
    return const(EN.E.fork_sign(a))


def np_copysign(a, b):
    a = np_abs(a)
    a = a.to_V() if isinstance(a, AbsVal) else a
    b = tov(b)
    if is_special(b):
        return a if b > 0 else -a
    return -a if EN.E.x.branch_cmp(b, "<") else a


def int_gen(name, a, f):
    """An integer determined by a value."""
    x = EN.E.x
    k = (name, a.key())
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(f"{name}<{a.show(16)}>", "opaque", k)
        g.info = {"int": True}
        g.ev = lambda: f(a.num().real).astype(np.clongdouble)
    return x.gv(g)


def np_floor(a):
    a = tov(a)
    if is_special(a):
        return a
    if not a.f:
        return const(a.c.numerator // a.c.denominator)
    x = EN.E.x
    n = int_gen("floor", a, np.floor)
    EN.E.path.cons.append((n - a, "<="))
    EN.E.path.cons.append((a - n - 1, "<"))
    EN.E.path.notes.append(("floor", n, a))
    return n


def np_isfinite(a):
    if isinstance(a, CV):
        return np_isfinite(a.real) and np_isfinite(a.imag)
    return not is_special(a) if isinstance(a, float) else True


def np_isnan(a):
    return isinstance(a, float) and a != a


def np_isinf(a):
    return isinstance(a, float) and a in (INF, -INF)


def np_isclose(a, b, rtol=None, atol=None, **k):
    x = EN.E.x
    a, b = tov(a), tov(b)
    if is_special(a) or is_special(b):
        return a == b
    at = tov(1e-8 if atol is None else atol)
    rt = tov(1e-5 if rtol is None else rtol)
    tol = at + (AbsVal(b) * rt if is_tiny(rt) else F.opaque(x, "abs", (b,), np.abs, sign="0+") * rt)
    d = a - b
    if not d.c:
        return True
    band = [x.const(0) if t is None or is_tiny(tov(t)) else tov(t) for t in (atol, rtol)]
    if not any(t.f for t in band) and max(float(t.c) for t in band) >= 1e-5:
        # a band, not an allowance for rounding
        at, rt = band
        m = b if x.branch_cmp(b, ">=") else -b
        w = at + rt * m
        return EN.SymBool("and", compare(d, w, "<="), compare(-d, w, "<="))
    return SymBool("near", (d, None), tol)


def np_mod(a, b):
    """Floored modulo."""
    x = EN.E.x
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    a, b = tov(a), tov(b)
    if is_special(a):
        return NAN
    if not a.f and not b.f:
        return const(a.c % b.c)
    k = ("modk", a.key(), b.key())
    # a - b * k with an integer generator k
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(f"turns<{a.show(16)}>", "opaque", k)
        g.info = {"int": True}
        g.ev = lambda: np.floor((a.num() / b.num()).real).astype(np.clongdouble)
    kv = x.gv(g)
    r = a - b * kv
    EN.E.path.cons.append((r, ">="))
    EN.E.path.cons.append((r - b, "<"))
    EN.E.path.notes.append(("mod", r, b))
    return r


def is_flag(v):
    return isinstance(v, (bool, np.bool_))


def div(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return mk(np.frompyfunc(div, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    if isinstance(a, (int, V)) and isinstance(b, (int, V)) and not is_flag(a) and not is_flag(b):
        if isinstance(b, int):
            if b == 0 and isinstance(a, int):
                raise ZeroDivisionError("division by zero")
            b = const(b)
        if isinstance(a, int):
            a = const(a)
        return vdiv(a, b)
    if isinstance(a, CV) or isinstance(b, CV):
        return CV.of(a) / CV.of(b)
    if isinstance(a, (V, AbsVal, int, float, Fraction, bool)) and isinstance(b, (V, AbsVal, int, float, Fraction, bool)):
        a, b = tov(a), tov(b)
        if isinstance(a, V) and isinstance(b, V):
            return vdiv(a, b)
        if isinstance(b, float):
            return NAN if (b != b or isinstance(a, float)) else const(0)
        s = EN.E.x.sign(b)
        if a != a or s in (0, None):
            return NAN if a != a or s is None else a
        return a * s
    return a / b


def pw(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return mk(np.frompyfunc(pw, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object)))
    if isinstance(a, int) and isinstance(b, int):
        return a ** b if b >= 0 else const(Fraction(a) ** b)
    if isinstance(a, CV):
        if isinstance(b, V) and not b.f and b.c.denominator == 1:
            b = int(b.c)
        if isinstance(b, int):
            r = CV(const(1), const(0))
            for _ in range(abs(b)):
                r = r * a
            return CV.of(1) / r if b < 0 else r
        if zero(a.imag):
            if EN.E.x.branch_cmp(a.real, ">="):
                return CV(pw(a.real, b), const(0))
        if isinstance(b, V) and b.c == Fraction(1, 2):
            return csqrt(a)
        l = clog(a)
        return cexp(l * b)
    a, b = tov(a), tov(b)
    if a is NotImplemented or b is NotImplemented:
        raise Unsupported("power")
    if is_special(a) or is_special(b):
        try:
            fa = a if isinstance(a, float) else (float(a) if not a.f else 2.0)
            fb = b if isinstance(b, float) else (float(b) if not b.f else 2.0)
            r = fa ** fb
            return NAN if isinstance(r, complex) else r
        except Exception:
            return NAN
    if b.f:
        # symbolic exponent
        return F.vexp(b * F.vlog(a))
    e = b.c
    if e.denominator == 1:
        return vpowi(a, int(e))
    if EN.E.x.branch_cmp(a, "<"):
        return NAN
    if e.denominator > 12:
        return F.opaque(EN.E.x, f"pow{e}", (a,), lambda t: t ** float(e), sign="+")
    s = EN.E.x.sign(a, weak=True)
    try:
        return F.vpow(a, e)
    except Unsupported:
        return F.opaque(EN.E.x, f"pow{e}", (a,), lambda t: t ** float(e), sign="+")


def fdiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    return np_floor(div(a, b))


def mod(a, b):
    if isinstance(a, str):
        return a % b
    if isinstance(a, np.ndarray):
        return mk(np.frompyfunc(np_mod, 2, 1)(np.asarray(a, dtype=object), b))
    return np_mod(a, b)


def idiv(a, b):
    if isinstance(a, np.ndarray):
        a[...] = div(a, b)
        return a
    return div(a, b)


# ------------------------------------------------------------------------------- reductions
def np_all(a, *r, **k):
    items = flatten(a)[1]
    if any(i is False for i in items):
        return False
    for i in items:
        if not bool(i):
            return False
    return True


def np_any(a, *r, **k):
    items = flatten(a)[1]
    if any(i is True for i in items):
        return True
    for i in items:
        if bool(i):
            return True
    return False


def np_sum(a, axis=None, **k):
    if axis is not None:
        return mk(np.sum(np.asarray(arr(a)), axis=axis))
    t = const(0)
    for i in flatten(a)[1]:
        t = t + i
    return t


def np_max(*a, **k):
    items = flatten(a[0])[1] if len(a) == 1 else list(a)
    m = items[0]
    for i in items[1:]:
        m = pick_max(m, i)
    return m


def np_min(*a, **k):
    items = flatten(a[0])[1] if len(a) == 1 else list(a)
    m = items[0]
    for i in items[1:]:
        m = pick_min(m, i)
    return m


def pick_max(a, b):
    if isinstance(a, AbsVal):
        a = a.to_V()
    if isinstance(b, AbsVal):
        b = b.to_V()
    return b if b > a else a


def pick_min(a, b):
    if isinstance(a, AbsVal):
        a = a.to_V()
    if isinstance(b, AbsVal):
        b = b.to_V()
    return b if b < a else a


def b_max(*a, **k):
    if len(a) == 1 and not isinstance(a[0], (str, dict, list, tuple, set, np.ndarray)):
        a = (list(a[0]),)
    if any(isinstance(t, (V, AbsVal, np.ndarray)) for t in (a if len(a) > 1 else (list(a[0]) if not isinstance(a[0], (str, dict)) else []))) and not k:
        return np_max(*a) if len(a) > 1 else np_max(list(a[0]))
    return builtins.max(*a, **k)


def b_min(*a, **k):
    if len(a) == 1 and not isinstance(a[0], (str, dict, list, tuple, set, np.ndarray)):
        a = (list(a[0]),)
    if any(isinstance(t, (V, AbsVal, np.ndarray)) for t in (a if len(a) > 1 else (list(a[0]) if not isinstance(a[0], (str, dict)) else []))) and not k:
        return np_min(*a) if len(a) > 1 else np_min(list(a[0]))
    return builtins.min(*a, **k)


def b_abs(a):
    if isinstance(a, (V, CV, AbsVal)):
        return np_abs(a)
    if isinstance(a, np.ndarray):
        return ew(np_abs)(a)
    return builtins.abs(a)


def np_dot(a, b):
    a, b = arr_in(a), arr_in(b)
    if a.ndim == 1 and b.ndim == 1:
        t = a[0] * b[0]
        for i in range(1, len(a)):
            t = t + a[i] * b[i]
        return t
    return mk(np.asarray(a) @ np.asarray(b))


def arr_in(a):
    return a if isinstance(a, np.ndarray) else arr(a)


def np_cross(a, b, **k):
    a, b = arr_in(a), arr_in(b)
    return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def np_norm(a, *r, **k):
    a = arr_in(a)
    if a.ndim != 1:
        raise Unsupported("norm of a matrix")
    t = None
    for v in a:
        q = v * v
        t = q if t is None else t + q
    return csqrt(t) if isinstance(t, V) else (NAN if t != t else INF)


def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("where")
    if isinstance(c, np.ndarray):
        return mk(np.frompyfunc(lambda t, u, v: u if bool(t) else v, 3, 1)(c, a, b))
    return a if bool(c) else b


def np_eye(n, *a, **k):
    return arr([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def np_zeros(n, *a, **k):
    sh = n if isinstance(n, tuple) else (n,)
    sh = tuple(int(t) for t in sh)
    out = np.empty(sh, dtype=object)
    out[...] = const(0)
    for i in np.ndindex(*sh):
        out[i] = const(0)
    return mk(out)


def np_full(n, v, *a, **k):
    o = np_zeros(n)
    o[...] = v
    return o


def np_clip(a, lo, hi, **k):
    if isinstance(a, np.ndarray):
        return mk(np.frompyfunc(lambda t: np_clip(t, lo, hi), 1, 1)(np.asarray(a)))
    if lo is not None:
        a = pick_max(a, lo) if not (a < lo) else tov(lo)
    if hi is not None:
        a = tov(hi) if (a > hi) else a
    return a


def np_hypot(a, b):
    return csqrt(tov(a) * tov(a) + tov(b) * tov(b))


def np_logical(op):
    def f(a, b):
        return (bool(a) and bool(b)) if op == "and" else (bool(a) or bool(b))
    return ew2(f)


class Finfo:
    def __init__(self, *a):
        self.eps = const(Fraction(1, 2 ** 52))
        self.tiny = const(Fraction(1, 2 ** 1022))
        self.max = const(Fraction(2) ** 1023)
        self.smallest_normal = self.tiny
        self.resolution = const(Fraction(1, 10 ** 15))


class Linalg(types.ModuleType):
    norm = staticmethod(np_norm)
    LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy.linalg." + n)


class Numpy(types.ModuleType):
    ndarray = np.ndarray
    nan, inf = NAN, INF
    newaxis = None
    bool_ = np.bool_
    e = None

    sqrt = staticmethod(ew(csqrt))
    cos = staticmethod(real_fn(F.vcos, lambda a: CV(F.vcosh(a), const(0)), lambda a, b: CV(F.vcos(a) * F.vcosh(b), -(F.vsin(a) * F.vsinh(b)))))
    sin = staticmethod(real_fn(F.vsin, lambda a: CV(const(0), F.vsinh(a)), lambda a, b: CV(F.vsin(a) * F.vcosh(b), F.vcos(a) * F.vsinh(b))))
    tan = staticmethod(real_fn(F.vtan, lambda a: CV(const(0), F.vtanh(a))))
    cosh = staticmethod(real_fn(F.vcosh, lambda a: CV(F.vcos(a), const(0))))
    sinh = staticmethod(real_fn(F.vsinh, lambda a: CV(const(0), F.vsin(a))))
    tanh = staticmethod(real_fn(F.vtanh))
    arccos = staticmethod(ew(carccos))
    arcsin = staticmethod(real_fn(F.varcsin))
    arctan = staticmethod(real_fn(F.varctan))
    arccosh = staticmethod(real_fn(F.varccosh))
    arcsinh = staticmethod(real_fn(F.varcsinh))
    arctanh = staticmethod(real_fn(F.varctanh))
    acos, asin, atan, acosh, asinh, atanh = arccos, arcsin, arctan, arccosh, arcsinh, arctanh
    arctan2 = staticmethod(ew2(lambda s, c: F.varctan2(tov(s), tov(c))))
    atan2 = arctan2
    log = staticmethod(ew(clog))
    exp = staticmethod(ew(cexp))
    abs = absolute = fabs = staticmethod(ew(np_abs))
    sign = staticmethod(ew(np_sign))
    copysign = staticmethod(ew2(np_copysign))
    floor = staticmethod(ew(np_floor))
    isfinite = staticmethod(ew(np_isfinite))
    isnan = staticmethod(ew(np_isnan))
    isinf = staticmethod(ew(np_isinf))
    isclose = staticmethod(np_isclose)
    mod = remainder = staticmethod(mod)
    power = float_power = staticmethod(pw)
    divide = true_divide = staticmethod(div)
    all = staticmethod(np_all)
    any = staticmethod(np_any)
    sum = staticmethod(np_sum)
    max = amax = staticmethod(np_max)
    min = amin = staticmethod(np_min)
    maximum = staticmethod(ew2(pick_max))
    minimum = staticmethod(ew2(pick_min))
    dot = vdot = inner = staticmethod(np_dot)
    cross = staticmethod(np_cross)
    where = staticmethod(np_where)
    eye = identity = staticmethod(np_eye)
    zeros = staticmethod(np_zeros)
    empty = staticmethod(np_zeros)
    ones = staticmethod(lambda n, *a, **k: np_full(n, const(1)))
    full = staticmethod(np_full)
    clip = staticmethod(np_clip)
    hypot = staticmethod(np_hypot)
    square = staticmethod(ew(lambda a: a * a))
    logical_and = staticmethod(np_logical("and"))
    logical_or = staticmethod(np_logical("or"))
    logical_not = staticmethod(lambda a: not bool(a))
    negative = staticmethod(lambda a: -a)
    add = staticmethod(lambda a, b: a + b)
    subtract = staticmethod(lambda a, b: a - b)
    multiply = staticmethod(lambda a, b: a * b)
    finfo = Finfo
    deg2rad = radians = staticmethod(lambda a: a * EN.E.x.pi() / 180)
    linalg = Linalg("numpy.linalg")

    def array(self, a, *r, **k):
        return arr(a)

    def asarray(self, a, *r, **k):
        return a if isinstance(a, np.ndarray) else arr(a)

    asanyarray = ascontiguousarray = asarray

    def copy(self, a, *r, **k):
        return arr(a)

    def equal(self, a, b):
        return arr_in(a) == arr_in(b) if isinstance(a, (np.ndarray, list, tuple)) else lazy_eq(tov(a), tov(b))

    def not_equal(self, a, b):
        return arr_in(a) != arr_in(b)

    def array_equal(self, a, b):
        a, b = arr_in(a), arr_in(b)
        return a.shape == b.shape and np_all(a == b)

    def allclose(self, a, b, **k):
        a, b = arr_in(a), arr_in(b)
        return np_all([np_isclose(t, u, **k) for t, u in zip(flatten(a)[1], flatten(b)[1])])

    def transpose(self, a):
        return a.T

    def matmul(self, a, b):
        return a @ b

    def vstack(self, a):
        return arr(list(a))

    stack = vstack

    def concatenate(self, a, *r, **k):
        return arr([v for t in a for v in t])

    def linspace(self, a, b, n=50, **k):
        a, b = tov(a), tov(b)
        return arr([a + (b - a) * const(Fraction(i, n - 1)) for i in range(n)])

    def arange(self, *a, **k):
        return arr(list(range(*[int(t) for t in a])))

    def ndim(self, a):
        return np.ndim(a)

    def shape(self, a):
        return np.shape(a)

    def size(self, a):
        return np.size(a)

    def isscalar(self, a):
        return isinstance(a, (int, float, V))

    def real(self, a):
        return a.real

    def imag(self, a):
        return a.imag

    def errstate(self, **k):
        return np.errstate(**k)

    def float64(self, a=0):
        return a if isinstance(a, np.ndarray) else tov(a)

    float32 = float16 = float_ = longdouble = float64

    def int64(self, a=0):
        return a

    int32 = int_ = int64

    def complex128(self, a=0, b=None):
        if b is not None:
            return CV(tov(a), tov(b))
        return CV.of(a)

    complex64 = complex_ = complex128

    def __getattr__(self, n):
        if n == "pi":
            return EN.E.x.pi() if EN.E is not None else None
        if n == "e":
            return F.vexp(const(1))
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("numpy." + n)


class Lazy(types.ModuleType):
    def __init__(self, name, d):
        super().__init__(name)
        self.__dict__.update(d)
        self._nm = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "pi" and self._nm in ("math", "numpy"):
            return EN.E.x.pi()
        raise Unsupported(self._nm + "." + n)


class JitShim:
    """njit and friends leave the function as it is."""

    def __call__(self, *a, **k):
        if a and callable(a[0]):
            return a[0]
        return lambda f: f


class RootRes:
    def __init__(self, root, it, conv):
        self.root, self.x, self.iterations, self.nit, self.converged, self.success = root, root, it, it, conv, conv
        self.function_calls = it
        self.flag = "converged"


def _call(f, t, args):
    return f(t, *args)


def brentq(f, a, b, args=(), xtol=None, rtol=None, maxiter=None, full_output=False, disp=True, **k):
    """Contract of scipy's bracketing solvers: a root between a and b, or an exception."""
    eng = EN.E
    if not isinstance(args, tuple):
        args = (args,)
    c = 0 if eng.skip_failures else eng.choice(3, "brentq")
    if c == 1:
        raise ValueError("f(a) and f(b) must have different signs")
    if c == 2 and disp:
        raise RuntimeError("Failed to converge")
    x = eng.x
    a, b = tov(a), tov(b)
    r = x.fresh("root", sampler=root_sampler(a, b))
    eng.path.roots.append(r)
    conv = True
    if c == 2:
        conv = False
        eng.path.notes.append(("unconverged", "scipy"))
    mark = len(eng.path.cons)
    if isinstance(a, V):
        eng.assume(compare(r, a, ">="))
    if isinstance(b, V):
        eng.assume(compare(r, b, "<="))
    if conv:
        fv = _call(f, r, args)
        fv = tov(fv)
        if is_special(fv):
            raise PathCut("no root")
        eng.path.accepts.append((fv, None, tov(xtol) if xtol is not None else None))
    if full_output:
        it = x.fresh("iters", lo=0)
        return r, RootRes(r, it, conv)
    return r


def root_sampler(a, b):
    def s(rng, n):
        with np.errstate(all="ignore"):
            la = a.num().real if isinstance(a, V) else np.full(n, -5.0 if a < 0 else 5.0)
            lb = b.num().real if isinstance(b, V) else np.full(n, 5.0 if b > 0 else -5.0)
            la, lb = np.nan_to_num(la.astype(float)), np.nan_to_num(lb.astype(float))
            return la + (lb - la) * rng.random(n)
    return s


def root_scalar(f, args=(), method=None, bracket=None, xtol=None, rtol=None, maxiter=None, **k):
    r, res = brentq(f, bracket[0], bracket[1], args, xtol, rtol, maxiter, True, False)
    res.root = r
    return res


def minimize_scalar(f, bounds=None, method=None, bracket=None, args=(), options=None, **k):
    eng = EN.E
    x = eng.x
    if bounds is not None:
        a, b = tov(bounds[0]), tov(bounds[1])
        r = x.fresh("argmin", sampler=root_sampler(a, b))
        eng.assume(compare(r, a, ">="))
        eng.assume(compare(r, b, "<="))
    else:
        r = x.fresh("argmin")
    eng.path.notes.append(("argmin", r))
    res = RootRes(r, 1, True)
    res.fun = _call(f, r, args)
    return res


def factorial(n, *a, **k):
    import math
    if isinstance(n, V):
        n = int(n)
    return const(math.factorial(n))


def poch(a, n):
    a = tov(a)
    r = const(1)
    for i in range(int(n)):
        r = r * (a + i)
    return r


def gamma(n):
    import math
    n = tov(n)
    if not n.f and n.c.denominator == 1 and n.c > 0:
        return const(math.factorial(int(n.c) - 1))
    if not n.f and n.c.denominator == 2 and n.c > 0:
        k = int(n.c - Fraction(1, 2))
        return F.vsqrt(EN.E.x.pi()) * const(Fraction(math.factorial(2 * k), 4 ** k * math.factorial(k)))
    k = ("gamma", n.key())
    return F.opaque(EN.E.x, "gamma", (n,), lambda t: np.vectorize(math.gamma)(t.real.astype(float)), sign="+")


def perf_counter(*a):
    eng = EN.E
    x = eng.x
    n = getattr(eng.path, "clock", 0)
    eng.path.clock = n + 1
    d = x.var(f"clk{n}", lo=0)
    t = getattr(eng.path, "now", const(0)) + d
    eng.path.now = t
    return t


def make_math(np_):
    import math
    d = dict(sqrt=np_.sqrt, cos=np_.cos, sin=np_.sin, tan=np_.tan, acos=np_.arccos, asin=np_.arcsin, atan=np_.arctan,
             atan2=np_.arctan2, cosh=np_.cosh, sinh=np_.sinh, tanh=np_.tanh, acosh=np_.arccosh, asinh=np_.arcsinh,
             atanh=np_.arctanh, exp=np_.exp, log=np_.log, fabs=np_abs, copysign=np_copysign, floor=np_floor,
             isfinite=np_isfinite, isnan=np_isnan, isinf=np_isinf, isclose=np_isclose, factorial=factorial, gamma=gamma,
             inf=INF, nan=NAN, hypot=np_hypot, pow=pw, fmod=np_mod,
             prod=lambda it, start=1: _prod(it, start), comb=lambda n, k: const(math.comb(int(n), int(k))),
             fsum=lambda it: np_sum(list(it)))
    return Lazy("math", d)


def _prod(it, start=1):
    r = const(start) if isinstance(start, int) else start
    for i in it:
        r = r * i
    return r


# ------------------------------------------------------------------------------- builtins
class SymRange:
    def __init__(self, lo, hi, rev=False):
        self.lo, self.hi, self.rev = lo, hi, rev


def b_range(*a):
    if all(isinstance(t, int) and not isinstance(t, V) for t in a):
        return builtins.range(*a)
    vs = [tov(t) for t in a]
    if all(not v.f for v in vs):
        return builtins.range(*[int(v) for v in vs])
    lo, hi = (const(0), vs[0]) if len(vs) == 1 else (vs[0], vs[1])
    if len(vs) == 3:
        if vs[2].c < 0:
            return SymRange(hi + 1, lo + 1, True)
        raise Unsupported("range with a step")
    return SymRange(lo, hi)


class BFloat(float):
    pass


def b_float(a=0.0):
    if isinstance(a, (V, AbsVal)):
        return tov(a)
    if isinstance(a, CV):
        raise TypeError("can't convert complex to float")
    if isinstance(a, np.ndarray) and a.size == 1:
        return tov(np.asarray(a).ravel()[0])
    if isinstance(a, str):
        return builtins.float(a)
    return builtins.float(a) if is_special(a) else (const(Fraction(repr(builtins.float(a)))) if isinstance(a, builtins.float) else const(a))


def b_int(a=0, *r):
    if isinstance(a, V):
        if not a.f:
            return builtins.int(a.c)
        # truncation
        if EN.E.x.branch_cmp(a, ">="):
            return np_floor(a)
        return -np_floor(-a)
    return builtins.int(a, *r)


def b_sum(it, start=0):
    t = start
    for i in it:
        t = t + i
    return t


def b_complex(a=0, b=0):
    return CV(tov(a), tov(b)) if not isinstance(a, CV) else a


def b_isinstance(a, t):
    ts = t if isinstance(t, tuple) else (t,)
    ts2 = []
    for u in ts:
        if u is b_float:
            ts2 += [builtins.float, V]
        elif u is b_int:
            ts2 += [builtins.int]
        elif u is b_complex:
            ts2 += [CV]
        elif isinstance(u, type):
            ts2.append(u)
        else:
            ts2.append(V)
    return builtins.isinstance(a, tuple(ts2))


def b_pow(a, b, *r):
    return pw(a, b)


def b_round(a, n=None):
    if isinstance(a, V):
        if not a.f:
            r = builtins.round(a.c, n or 0)
            return int(r) if n is None else const(r)
        t = a * const(Fraction(10) ** (n or 0))
        k = int_gen("round", t, np.round)
        EN.E.path.cons.append((2 * (k - t) - 1, "<="))
        EN.E.path.cons.append((2 * (t - k) - 1, "<="))
        return k * const(Fraction(10) ** -(n or 0))
    return builtins.round(a, n) if n is not None else builtins.round(a)


def b_bool(a=False):
    return bool(a)


# ------------------------------------------------------------------------------- loops
class LoopCut(BaseException):
    pass


def timed(eng, v):
    """Does any number in there depend on the time of flight?"""
    if isinstance(v, (tuple, list, np.ndarray)):
        return any(timed(eng, t) for t in (v.flat if isinstance(v, np.ndarray) else v))
    if isinstance(v, CV):
        return timed(eng, v.real) or timed(eng, v.imag)
    if callable(v) or isinstance(v, AbsVal):
        return True
    return isinstance(v, V) and any(eng.depends(eng.x.factors[f], eng.forget_tof) for f in v.f)


def updated(eng, v):
    """Is this a quotient of things that depend on the time of flight and on where an iteration has got to?"""
    x = eng.x
    if not any(eng.depends(x.factors[f], eng.forget) for f in v.f):
        return False
    memo = {}

    def met(i):
        if i not in memo:
            g = x.gens[i]
            memo[i] = g.kind == "var" and "@" in g.name
            d = g.info["def"] if g.kind == "let" else g.relV if g.kind == "root" else None
            if d is not None:
                memo[i] = any(met(j) for f in d.f for j in x.fgens[f])
        return memo[i]
    return any(k < 0 and len(x.factors[f]) > 1 and any(met(i) for i in x.fgens[f]) for f, k in v.f.items())


class LoopMark:
    __slots__ = ("id", "forked", "count")

    def __init__(self, i):
        self.id, self.forked, self.count = i, False, 0


def havoc_value(name, v, tag):
    x = EN.E.x
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return bool(EN.E.choice(2, name))
    if isinstance(v, (V, int, Fraction)) and not isinstance(v, bool):
        return x.fresh(f"{name}@{tag}")
    if isinstance(v, float):
        return x.fresh(f"{name}@{tag}")
    if isinstance(v, AbsVal):
        return x.fresh(f"{name}@{tag}", lo=0)
    if isinstance(v, CV):
        if zero(v.imag):
            return CV(x.fresh(f"{name}@{tag}"), const(0))
        if zero(v.real):
            return CV(const(0), x.fresh(f"{name}@{tag}"))
        return CV(x.fresh(f"{name}@{tag}"), x.fresh(f"{name}@{tag}"))
    if isinstance(v, np.ndarray):
        o = np.empty(v.shape, dtype=object)
        for i in np.ndindex(*v.shape):
            o[i] = havoc_value(name, v[i], tag)
        return mk(o)
    if isinstance(v, tuple):
        return tuple(havoc_value(name, t, tag) for t in v)
    if isinstance(v, list):
        return [havoc_value(name, t, tag) for t in v]
    return v


def summary(eng, name, shape):
    """Any result of the right shape: the call is not followed."""
    eng.path.summarised.append(name)
    x = eng.x
    tag = name.rpartition(".")[2]

    def mkv(t, i):
        k = t[0]
        if k == "f":
            return x.fresh(f"{tag}.{i}@S")
        if k == "i":
            return x.fresh(f"{tag}.{i}@S", lo=0, sampler=lambda r, n: r.integers(1, 9, n))
        if k == "c":
            return CV(x.fresh(f"{tag}.{i}r@S"), x.fresh(f"{tag}.{i}i@S"))
        if k == "b":
            return bool(eng.choice(2, name))
        if k == "n":
            return None
        if k == "t":
            return tuple(mkv(u, f"{i}.{j}") for j, u in enumerate(t[1]))
        if k == "l":
            # lengths seen, up to two elements
            ls = sorted({min(n, 2) for n in t[1]})
            n = ls[eng.choice(len(ls), name)] if len(ls) > 1 else t[1][0] if len(t[1]) == 1 else 2
            return [mkv(t[2], f"{i}.{j}") for j in range(n)]
        if k == "a":
            return mk(np.array([mkv((t[1],), f"{i}.{j}") for j in range(t[2])] + [None], dtype=object)[:-1])
        raise Unsupported("summary of " + name)
    return mkv(shape, "")


def lambert_summary(eng, name, f, a, k):
    """A solver called by another one: any orbit through the positions passed, in the sense requested."""
    import inspect
    b = inspect.signature(f).bind(*a, **k)
    b.apply_defaults()
    b = b.arguments
    eng.path.summarised.append(name)
    x = eng.x
    mu, r1, r2 = b["mu"], b["r1"], b["r2"]
    c = np_cross(r1, r2)
    n1, n2, cn = np_norm(r1), np_norm(r2), np_norm(c)
    up = x.branch_cmp(tov(c[2]), ">=")
    rs = cn if up == bool(b["is_prograde"]) else -cn
    tag = name.rpartition(".")[2]
    p = x.fresh(f"p.{tag}@S", lo=0)
    oc = 1 - (r1[0] * r2[0] + r1[1] * r2[1] + r1[2] * r2[2]) / (n1 * n2)
    s = F.vsqrt(tov(mu)) * F.vsqrt(p) / rs
    v1 = mk(np.array([s * (q - o + n2 / p * oc * o) for o, q in zip(r1, r2)] + [None], dtype=object)[:-1])
    v2 = mk(np.array([s * (q - o - n1 / p * oc * q) for o, q in zip(r1, r2)] + [None], dtype=object)[:-1])
    if b.get("full_output") is True:
        return v1, v2, x.fresh(f"it.{tag}@S", lo=0), x.fresh(f"tpi.{tag}@S", lo=0)
    return v1, v2


class ForLoop:
    def __init__(self, it, lid):
        self.it, self.lid = it, lid
        eng = EN.E
        if eng is not None and eng.cut:
            raise LoopCut()
        self.symbolic = isinstance(it, SymRange)
        self.items = None
        if not self.symbolic and lid in eng.havoc_loops:
            self.items = list(it)
            self.symbolic = bool(self.items)
        self.mark = None

    def havoc(self, names, loc):
        eng = EN.E
        out = []
        if isinstance(self.it, SymRange):
            # the body runs at least once, otherwise the loop is left at once
            self.skip = not eng.x.branch_cmp(self.it.hi - self.it.lo, ">")
        else:
            self.skip = False
        for n in names:
            v = loc.get(n, UNB)
            if v is UNB:
                out.append(UNB)
            else:
                nv = v if self.skip else havoc_value(n, v, self.lid)
                out.append(nv)
        if not self.skip:
            eng.path.havocs.append((self.lid, {n: v for n, v in zip(names, out) if v is not UNB}))
        return tuple(out)

    def once(self):
        return () if self.skip else (0,)

    def value(self):
        eng = EN.E
        x = eng.x
        if self.items is not None:
            if all(isinstance(t, (int, V)) for t in self.items):
                t = x.fresh(f"it@{self.lid}")
                eng.path.cons.append((t - tov(self.items[0]), ">="))
                eng.path.cons.append((tov(self.items[-1]) - t, ">="))
                return t
            return havoc_value("it", self.items[0], self.lid)
        if self.skip:
            return None
        t = x.fresh(f"n@{self.lid}", lo=0, sampler=lambda rng, n: rng.integers(1, 6, n))
        self.t = t
        eng.path.cons.append((t - self.it.lo, ">="))
        eng.path.cons.append((self.it.hi - t - 1, ">="))
        return t

    def complete(self):
        """The body ran without leaving the loop."""
        eng = EN.E
        if getattr(self, "skip", False):
            return
        c = 1 if eng.skip_exhausted else eng.choice(2, "exhausted")
        if c == 1:
            raise PathCut("next iteration")
        eng.path.exhausted.append(self.lid)
        if self.items is None:
            eng.path.cons.append((self.it.hi - self.t - 1, "=="))

    def lets(self, names, loc):
        """Names read by a long unrolled loop get short symbols, so that powers stay small."""
        try:
            n = len(self.it)
        except TypeError:
            n = 0
        out = []
        for nm in names:
            v = loc.get(nm, UNB)
            if n > 8 and isinstance(v, V) and terms(v) > 2:
                v = let(v)
            out.append(v)
        return tuple(out)

    def __iter__(self):
        eng = EN.E
        m = LoopMark(self.lid)
        self.mark = m
        eng.loopstack.append(m)
        for v in self.it:
            if m.forked:
                m.count += 1
                m.forked = False
                if m.count >= eng.unroll:
                    eng.havoc_loops.add(self.lid)
                    raise Restart()
            yield v
        self.end()

    def end(self):
        eng = EN.E
        if self.mark is not None and self.mark in eng.loopstack:
            i = eng.loopstack.index(self.mark)
            del eng.loopstack[i:]


class WhileLoop:
    def __init__(self, lid):
        self.lid = lid
        self.eng = EN.E
        if self.eng is not None and self.eng.cut:
            raise LoopCut()
        self.state = "concrete"
        self.n = 0
        self.mark = LoopMark(lid)
        self.eng.loopstack.append(self.mark)
        self.done_body = False

    def pre(self):
        """Called before the condition: True when the state must be made arbitrary now."""
        if self.lid in self.eng.havoc_loops and self.state == "concrete" and self.n == 0:
            return False
        return False

    def cond(self, c):
        """0: leave, 1: run the body, 2: make the state arbitrary, then the body."""
        eng = self.eng
        self.n += 1
        if self.lid in eng.havoc_loops:
            if self.state == "concrete":
                if not bool(c):
                    self.end()
                    return 0
                self.state = "havoc"
                return 2
            # after one arbitrary body
            if bool(c):
                raise PathCut("next iteration")
            self.end()
            return 0
        r = bool(c)
        if not r:
            self.end()
            return 0
        if self.mark.forked:
            self.mark.count += 1
            self.mark.forked = False
            if self.mark.count >= eng.unroll:
                eng.havoc_loops.add(self.lid)
                raise Restart()
        if self.n > 3000:
            raise Unsupported("loop does not end")
        return 1

    def havoc(self, names, loc):
        out = []
        for n in names:
            v = loc.get(n, UNB)
            out.append(UNB if v is UNB else havoc_value(n, v, self.lid))
        self.eng.path.havocs.append((self.lid, {n: v for n, v in zip(names, out) if v is not UNB}))
        return tuple(out)

    def enter(self, c):
        EN.E.assume(c if isinstance(c, (bool, SymBool)) else bool(c))

    def end(self):
        if self.mark in self.eng.loopstack:
            i = self.eng.loopstack.index(self.mark)
            del self.eng.loopstack[i:]


# ------------------------------------------------------------------------------- transformation
class Tx(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.fn = []
        self.locals = []

    def call(self, name, *args):
        return ast.Call(ast.Attribute(ast.Name("__lh", ast.Load()), name, ast.Load()), list(args), [])

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        # annotations may mention anything
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs:
            a.annotation = None
        k = self.n
        self.n = 0
        nl = {t for q in ast.walk(node) if isinstance(q, (ast.Nonlocal, ast.Global)) for t in q.names}
        self.locals.append(({a.arg for a in node.args.args} | set(self.assigned(node.body))) - nl)
        self.generic_visit(node)
        self.locals.pop()
        self.n = k
        node.body.insert(0, ast.Expr(self.call("enter", ast.Constant(self.mod + "." + ".".join(self.fn)))))
        if len(self.fn) == 1:
            node.decorator_list.insert(0, self.call("wrap", ast.Constant(self.mod + "." + node.name)))
        self.fn.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return self.call("flt", ast.Constant(repr(node.value)))
        if isinstance(node.value, complex):
            return self.call("cpx", ast.Constant(repr(node.value.real)), ast.Constant(repr(node.value.imag)))
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None:
            node.value = self.call("ret", node.value)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if self.fn and all(isinstance(t, ast.Name) for t in node.targets) and isinstance(node.value, (ast.BinOp, ast.Call, ast.IfExp, ast.UnaryOp)):
            node.value = self.call("asg", node.value)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        m = {ast.Div: "div", ast.Pow: "pw", ast.Mod: "mod", ast.FloorDiv: "fdiv"}.get(type(node.op))
        if m:
            return self.call(m, node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        m = {ast.Div: "idiv", ast.Pow: "pw", ast.Mod: "mod", ast.FloorDiv: "fdiv"}.get(type(node.op))
        if m:
            ld = copy.deepcopy(node.target)
            for t in ast.walk(ld):
                if hasattr(t, "ctx"):
                    t.ctx = ast.Load()
            return ast.Assign([node.target], self.call(m, ld, node.value))
        return node

    def assigned(self, body):
        out = []
        for s in body:
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and not t.id.startswith("__lh"):
                    if t.id not in out:
                        out.append(t.id)
                # containers changed in place
                if isinstance(t, (ast.Assign, ast.AugAssign)):
                    for tg in (t.targets if isinstance(t, ast.Assign) else [t.target]):
                        while isinstance(tg, (ast.Subscript, ast.Attribute)):
                            tg = tg.value
                        if isinstance(tg, ast.Name) and tg.id not in out:
                            out.append(tg.id)
        # names of nested functions and comprehension variables are local to them
        for s in body:
            for t in ast.walk(s):
                if isinstance(t, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    for g in t.generators:
                        for q in ast.walk(g.target):
                            if isinstance(q, ast.Name) and q.id in out and not self.plain_store(body, q.id):
                                out.remove(q.id)
        return out

    def plain_store(self, body, name):
        comp = set()
        for s in body:
            for t in ast.walk(s):
                if isinstance(t, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                    for g in t.generators:
                        for q in ast.walk(g.target):
                            comp.add(id(q))
        return any(isinstance(t, ast.Name) and t.id == name and isinstance(t.ctx, ast.Store) and id(t) not in comp
                   for s in body for t in ast.walk(s))

    def reads(self, body, assigned):
        """Names used only as numbers in the body and local to the function."""
        if not self.fn:
            return []
        out, bad = [], set(assigned)
        for s in body:
            for t in ast.walk(s):
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name):
                    bad.add(t.func.id)
                if isinstance(t, (ast.Attribute, ast.Subscript)) and isinstance(t.value, ast.Name):
                    bad.add(t.value.id)
        for s in body:
            for t in ast.walk(s):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Load) and t.id not in out and t.id in self.locals[-1]:
                    out.append(t.id)
        return [n for n in out if n not in bad]

    def havoc_stmts(self, var, names, meth="havoc"):
        if not names:
            return [ast.Expr(ast.Call(ast.Attribute(ast.Name(var, ast.Load()), "havoc", ast.Load()),
                                      [ast.Tuple([], ast.Load()), ast.Call(ast.Name("locals", ast.Load()), [], [])], []))]
        tup = ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())
        st = [ast.Assign([tup], ast.Call(ast.Attribute(ast.Name(var, ast.Load()), meth, ast.Load()),
                                         [ast.Tuple([ast.Constant(n) for n in names], ast.Load()),
                                          ast.Call(ast.Name("locals", ast.Load()), [], [])], []))]
        for n in names:
            st.append(ast.If(ast.Compare(ast.Name(n, ast.Load()), [ast.Is()], [ast.Attribute(ast.Name("__lh", ast.Load()), "UNB", ast.Load())]),
                             [ast.Delete([ast.Name(n, ast.Del())])], []))
        return st

    def visit_For(self, node):
        self.n += 1
        lid = f"{self.mod}.{'.'.join(self.fn)}.for{self.n}"
        names = [n for n in self.assigned(node.body) if n not in {t.id for t in ast.walk(node.target) if isinstance(t, ast.Name)}]
        k = self.n
        reads = self.reads(node.body, names)
        self.generic_visit(node)
        var = f"__lhf{k}_{len(self.fn)}"
        L = lambda a: ast.Attribute(ast.Name(var, ast.Load()), a, ast.Load())
        begin = ast.Assign([ast.Name(var, ast.Store())], self.call("ForLoop", node.iter, ast.Constant(lid)))
        sym = self.havoc_stmts(var, names)
        first = ast.Assign([copy.deepcopy(node.target)], ast.Call(L("value"), [], []))
        inner = ast.For(ast.Name(f"__lho{k}", ast.Store()), ast.Call(L("once"), [], []), copy.deepcopy(node.body),
                        [ast.Expr(ast.Call(L("complete"), [], []))] + copy.deepcopy(node.orelse), None)
        guard = ast.If(ast.UnaryOp(ast.Not(), L("skip")), [first], [])
        lets = []
        if reads:
            lets = self.havoc_stmts(var, reads, "lets")
        conc = ast.Try(lets + [ast.For(node.target, ast.Name(var, ast.Load()), node.body, node.orelse, None)], [], [],
                       [ast.Expr(ast.Call(L("end"), [], []))])
        return [begin, ast.If(L("symbolic"), sym + [guard, inner], [conc])]

    def visit_While(self, node):
        self.n += 1
        lid = f"{self.mod}.{'.'.join(self.fn)}.while{self.n}"
        names = self.assigned(node.body)
        k = self.n
        cond_src = copy.deepcopy(node.test)
        self.generic_visit(node)
        if node.orelse:
            raise Unsupported("while-else")
        var = f"__lhw{k}_{len(self.fn)}"
        L = lambda a: ast.Attribute(ast.Name(var, ast.Load()), a, ast.Load())
        cv = f"__lhc{k}_{len(self.fn)}"
        begin = ast.Assign([ast.Name(var, ast.Store())], self.call("WhileLoop", ast.Constant(lid)))
        test2 = copy.deepcopy(node.test)
        body = [
            ast.Assign([ast.Name(cv, ast.Store())], ast.Call(L("cond"), [node.test], [])),
            ast.If(ast.Compare(ast.Name(cv, ast.Load()), [ast.Eq()], [ast.Constant(0)]), [ast.Break()], []),
            ast.If(ast.Compare(ast.Name(cv, ast.Load()), [ast.Eq()], [ast.Constant(2)]),
                   self.havoc_stmts(var, names) + [ast.Expr(ast.Call(L("enter"), [test2], []))], []),
        ] + node.body
        loop = ast.Try([ast.While(ast.Constant(True), body, [])], [], [], [ast.Expr(ast.Call(L("end"), [], []))])
        return [begin, loop]


class LH:
    """What transformed code calls."""
    UNB = UNB
    entered = set()

    @staticmethod
    def enter(name):
        LH.entered.add(name)

    @staticmethod
    def wrap(name):
        def deco(f):
            @functools.wraps(f)
            def g(*a, **k):
                eng = EN.E
                if eng is None or not eng.summaries:
                    return f(*a, **k)
                if name in eng.summaries:
                    if eng.summaries[name][0] == "lambert":
                        return lambert_summary(eng, name, f, a, k)
                    if eng.forget_tof is not None and not timed(eng, (a, tuple(k.values()))):
                        # nothing to do with the time of flight: followed unless it loops, any result if it does
                        eng.cut += 1
                        try:
                            return f(*a, **k)
                        except LoopCut:
                            eng.path.looped.add(name)
                        finally:
                            eng.cut -= 1
                    return summary(eng, name, eng.summaries[name])
                return f(*a, **k)
            return g
        return deco

    ForLoop, WhileLoop = ForLoop, WhileLoop
    div, pw, mod, fdiv, idiv = staticmethod(div), staticmethod(pw), staticmethod(mod), staticmethod(fdiv), staticmethod(idiv)

    @staticmethod
    def asg(v):
        eng = EN.E
        if eng.forget is not None and isinstance(v, V) and eng.path.havocs and updated(eng, v):
            # a step of an iteration: any number instead
            return eng.x.fresh("step@" + eng.path.havocs[-1][0])
        if isinstance(v, V) and terms(v) > A.ASGTERMS:
            return let(v)
        return v

    @staticmethod
    def ret(v):
        if isinstance(v, V):
            return let(v) if terms(v) > A.RETTERMS else v
        if isinstance(v, CV):
            return CV(LH.ret(v.real), LH.ret(v.imag))
        if type(v) is tuple:
            return tuple(LH.ret(t) for t in v)
        if type(v) is list:
            return [LH.ret(t) for t in v]
        return v

    @staticmethod
    def flt(s):
        if s in ("inf", "nan"):
            return float(s)
        return const(Fraction(s))

    @staticmethod
    def cpx(a, b):
        return CV(const(Fraction(a)), const(Fraction(b)))


class Loader:
    """Modules of the package, loaded afresh from the sources."""

    def __init__(self, root=None, overrides=None):
        self.root = root or os.path.join(REPO, "src")
        self.mods = {}
        self.np = Numpy("numpy")
        self.math = make_math(self.np)
        jit = JitShim()
        self.shims = {
            "numpy": self.np,
            "numpy.linalg": self.np.linalg,
            "math": self.math,
            "cmath": self.math,
            "time": Lazy("time", dict(perf_counter=perf_counter, time=perf_counter, monotonic=perf_counter,
                                      process_time=perf_counter, perf_counter_ns=perf_counter)),
            "numba": Lazy("numba", dict(njit=jit, jit=jit, vectorize=jit, prange=b_range, float64=jit, int64=jit, boolean=jit)),
            "scipy": Lazy("scipy", {}),
            "scipy.optimize": Lazy("scipy.optimize", dict(brentq=brentq, brenth=brentq, ridder=brentq, bisect=brentq, toms748=brentq,
                                                         root_scalar=root_scalar, minimize_scalar=minimize_scalar)),
            "scipy.special": Lazy("scipy.special", dict(factorial=factorial, poch=poch, gamma=gamma)),
        }
        self.shims["scipy"].__dict__.update(optimize=self.shims["scipy.optimize"], special=self.shims["scipy.special"])
        self.overrides = overrides or {}
        self.encoded = set()
        bd = {k: getattr(builtins, k) for k in dir(builtins) if not k.startswith("_") or k in ("__build_class__", "__name__")}
        bd.update(abs=b_abs, min=b_min, max=b_max, float=b_float, int=b_int, range=b_range, sum=b_sum, complex=b_complex,
                  isinstance=b_isinstance, pow=b_pow, round=b_round)
        bd["__import__"] = self.imp
        bd["print"] = lambda *a, **k: None
        self.builtins = bd

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        if name in self.shims:
            m = self.shims[name]
            return m if fromlist or "." not in name else self.shims[name.split(".")[0]]
        if name == "lamberthub" or name.startswith("lamberthub."):
            m = self.load(name)
            for f in fromlist or ():
                if not hasattr(m, f) and self.find(name + "." + f):
                    setattr(m, f, self.load(name + "." + f))
            return m if fromlist else self.load(name.split(".")[0])
        if name.split(".")[0] in ("scipy", "numba", "numpy"):
            raise Unsupported("import " + name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def find(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(p + ".py"):
            return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            raise ImportError(name)
        path, ispkg = f
        if "." in name:
            self.load(name.rpartition(".")[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__lh"] = LH
        self.mods[name] = m
        self.run(m, path, name)
        if "." in name:
            setattr(self.mods[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        return m

    def run(self, m, path, name):
        src = open(path).read()
        tree = ast.parse(src, path)
        tree = Tx(name).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        self.encoded.add(name)
        exec(code, m.__dict__)

    def file(self, path, name):
        """A script outside the package."""
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = ""
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__lh"] = LH
        self.run(m, path, name)
        return m


def unconst(v):
    return v
