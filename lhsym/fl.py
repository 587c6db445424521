"""Values with a bound on the accumulated rounding error of double arithmetic."""
from fractions import Fraction
import numpy as np

from . import engine as EN
from . import funcs as F
from . import interp as I
from .alg import V, Unsupported, vmul, vdiv, vpowi
from .engine import compare

U = Fraction(1, 2 ** 53)
SL = Fraction(101, 100)          # slack for second order terms


def ab(v, m=None):
    """|v| when the sign is known, else the bound m."""
    x = EN.E.x
    s = F.sign(x, v, weak=True)
    if s in (1, "0+", 0):
        return v
    if s in (-1, "0-"):
        return -v
    if m is None:
        return F.vabs(v)
    return m


class EV:
    """Exact value v, |computed - v| <= e, |v| <= m."""
    __array_priority__ = 100
    partial = None          # the largest bound met so far (for reports)

    def __init__(self, v, e=None, m=None):
        x = v.x
        self.v, self.e = v, x.const(0) if e is None else e
        self.m = ab(v) if m is None else m

    @staticmethod
    def of(o):
        if isinstance(o, EV):
            return o
        v = I.tov(o)
        if not isinstance(v, V):
            raise Unsupported("a special value among rounded ones")
        return EV(v)

    def __neg__(self):
        return EV(-self.v, self.e, self.m)

    def __pos__(self):
        return self

    def __abs__(self):
        return EV(F.vabs(self.v), self.e, self.m)

    def _add(self, o):
        v = self.v + o.v
        m = ab(v, self.m + o.m)
        e = self.e + o.e
        if o.v.c and self.v.c:
            e = e + m * U
        return EV(v, e, m)

    def __add__(self, o):
        return self._add(EV.of(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(-EV.of(o))

    def __rsub__(self, o):
        return (-self)._add(EV.of(o))

    def __mul__(self, o):
        o = EV.of(o)
        m = self.m * o.m
        return EV(self.v * o.v, self.m * o.e + o.m * self.e + m * (U * SL), m)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = EV.of(o)
        if not o.v.c:
            raise Unsupported("division by zero")
        d = ab(o.v, None)
        m = self.m / d
        return EV(self.v / o.v, (self.e + m * o.e) / d * SL + m * U, m)

    def __rtruediv__(self, o):
        return EV.of(o) / self

    def __pow__(self, n):
        n = n if isinstance(n, int) else n.c if isinstance(n, V) and not n.f else None
        if n is None:
            raise Unsupported("power")
        n = Fraction(n)
        if n == Fraction(1, 2):
            return sqrt(self)
        if n.denominator == 2:
            return sqrt(self) ** int(n * 2)
        if n.denominator != 1:
            raise Unsupported("power")
        n = int(n)
        if n < 0:
            return EV.of(1) / self ** (-n)
        if n == 0:
            return EV.of(1)
        m = vpowi(self.m, n)
        return EV(vpowi(self.v, n), self.e * (vpowi(self.m, n - 1) * (n * SL) if n > 1 else 1) + (m * (2 * U) if n > 1 else 0), m)

    # comparisons: exact values decide, except equality, which asks what rounding does
    def _c(self, o, op):
        return compare(self.v, EV.of(o).v, op)

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        return rounded_equal(self, EV.of(o))

    def __ne__(self, o):
        return not rounded_equal(self, EV.of(o))

    __hash__ = None


def rounded_equal(a, b):
    """a == b in doubles: certain when the values agree, possible only when they are an ulp apart."""
    eng = EN.E
    d = a.v - b.v
    if not d.c:
        return True
    if not a.v.f and not b.v.f:
        return False
    if not b.v.c or not a.v.c:
        return bool(compare(d, d.x.const(0), "=="))
    m = ab(b.v, b.m)
    eng.note_fork()
    if eng.choice(2, "rounded equal") == 0:
        eng.assume(compare(d * d, m * m * Fraction(1, 2 ** 104), "<="))
        return True
    eng.assume(compare(d * d, m * m * Fraction(1, 2 ** 110), ">="))
    return False


def sqrt(a):
    if not isinstance(a, EV):
        return I.csqrt(a)
    if EN.E.x.branch_cmp(a.v, "<"):
        return float("nan")
    s = F.vsqrt(a.v)
    if not s.c:
        return EV(s)
    return EV(s, a.e / s + s * U, s)


def circ(fn, i):
    def g(a):
        if not isinstance(a, EV):
            return fn(a)
        one = a.v.x.const(1)
        return EV(F.cossin(a.v)[i], a.e + 2 * U, one)
    return g


def hyp(fn, i):
    def g(a):
        if not isinstance(a, EV):
            return fn(a)
        C, S = F.cossin(a.v, "hyp")
        w = C if i == 0 else S
        m = C if i == 0 else ab(S, C)
        return EV(w, C * a.e * SL + m * (2 * U), m)
    return g


def install(ld):
    """Make the numpy and math stand-ins of a loader aware of rounded values."""
    for mod in (ld.np, ld.math):
        for n, g in (("sqrt", lambda f: (lambda a: sqrt(a) if isinstance(a, EV) else f(a))), ("cos", lambda f: circ(f, 0)), ("sin", lambda f: circ(f, 1)),
                     ("cosh", lambda f: hyp(f, 0)), ("sinh", lambda f: hyp(f, 1)),
                     ("abs", lambda f: (lambda a: abs(a) if isinstance(a, EV) else f(a))), ("fabs", lambda f: (lambda a: abs(a) if isinstance(a, EV) else f(a)))):
            try:
                f = getattr(mod, n)
            except (Unsupported, AttributeError):
                continue
            setattr(mod, n, g(f))
    old = I.LH.pw
    I.LH.pw = staticmethod(lambda a, b: a ** b if isinstance(a, EV) else old(a, b))
    ab_ = ld.builtins["abs"]
    ld.builtins["abs"] = lambda a: abs(a) if isinstance(a, EV) else ab_(a)
