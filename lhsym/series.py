"""Power series computed by the real code: the stop test of a sum, its polynomial, and bounds of polynomials over a band."""
from fractions import Fraction
import math
import z3

from . import poly as P
from .engine import compare, SymBool
from . import interp as I
from .alg import V, Unsupported, vpowi


def gen_of(v):
    """Index of the generator that the value is."""
    x = v.x
    (fid, e), = v.f.items()
    g, = [i for i in P.gens_of(x.factors[fid])]
    return g


def order(v, g):
    """The power of generator g that the value is a multiple of."""
    x = v.x
    n = 0
    for fid, e in v.f.items():
        m = min((k >> (P.W * g)) & P.MASK for k in x.factors[fid])
        n += e * m
    return n


def expand(v, x):
    """Numerator polynomial {monomial: coefficient}, without denominators: the value has to be a polynomial."""
    num = {0: Fraction(v.c)}
    for fid, e in v.f.items():
        if e < 0:
            raise Unsupported("not a polynomial")
        for _ in range(e):
            num = P.mul(num, x.factors[fid])
    return num


def within(v, bounds, tol, x, timeout=5000):
    """Does |v| <= tol hold for all values of the generators within the bounds {generator: largest magnitude}?

    Every monomial becomes a real of its own, at most as large as its generators allow; linear, hence an upper bound."""
    s = z3.Solver()
    s.set("timeout", timeout)
    terms = []
    for i, (m, c) in enumerate(v.poly().items()):
        b = Fraction(1)
        for g in P.gens_of({m: 1}):
            if g not in bounds:
                raise Unsupported("a polynomial in something else: " + str(x.gens[g].name))
            b *= Fraction(bounds[g]) ** ((m >> (P.W * g)) & P.MASK)
        w = z3.Real(f"m{i}")
        q = lambda t: z3.RealVal(str(Fraction(t)))
        s.add(w <= q(b), w >= q(-b))
        terms.append(q(c) * w)
    t = z3.Sum(terms) if terms else z3.RealVal(0)
    s.add(z3.Or(t > z3.RealVal(str(Fraction(tol))), t < z3.RealVal(str(-Fraction(tol)))))
    r = s.check()
    return r == z3.unsat


def band(S, v, sizes, timeout=3000):
    """The smallest of the sizes that the path confines |v| to."""
    for b in sizes:
        ok = True
        for sg in (1, -1):
            c = compare(v * sg, v.x.const(b), ">")
            if c is False:
                continue
            if c is True or S.eng.check([c], timeout=timeout) is not False:
                ok = False
                break
        if ok:
            return Fraction(b)
    return None


class TP:
    """num / den, polynomials in the generators; equality as seen by a stop test: differences divisible by the N-th power of g vanish."""
    __array_priority__ = 100
    N = 40
    g = None
    x = None

    def __init__(self, num, den=None):
        self.n, self.d = num, den or {0: Fraction(1)}

    @classmethod
    def of(cls, o):
        if isinstance(o, TP):
            return o
        if isinstance(o, bool) or o is None:
            raise Unsupported("not a number")
        if isinstance(o, int):
            return TP({0: Fraction(o)} if o else {})
        v = I.tov(o)
        if not isinstance(v, V):
            raise Unsupported("a special value in a series")
        return TP({k: c for k, c in expand(v, v.x).items() if c})

    @classmethod
    def red(cls, p):
        """Squares of the square roots are replaced."""
        for i in list(P.gens_of(p)):
            g = cls.x.gens[i]
            if g.n == 2 and g.rel is not None:
                while P.degree(p, i) > 1:
                    lo = {m: c for m, c in p.items() if ((m >> (P.W * i)) & P.MASK) < 2}
                    hi = {m - (2 << (P.W * i)): c for m, c in p.items() if ((m >> (P.W * i)) & P.MASK) >= 2}
                    p = P.add(lo, P.mul(hi, expand(g.relV, cls.x)))
        return {m: c for m, c in p.items() if c}

    def norm(self):
        n, d = TP.red(self.n), TP.red(self.d)
        if not n:
            return TP({})
        if d.keys() == {0}:
            c = d[0]
            return TP({m: t / c for m, t in n.items()})
        if P.gens_of(d):
            la, lb = (math.lcm(*(Fraction(c).denominator for c in t.values())) for t in (n, d))
            di = {m: int(c * lb) for m, c in d.items()}
            gb = math.gcd(*di.values())
            q = P.exact_div({m: int(c * la) for m, c in n.items()}, {m: c // gb for m, c in di.items()})
            if q is not None:
                return TP({m: Fraction(c) * lb / (la * gb) for m, c in q.items()})
        return TP(n, d)

    def __neg__(self):
        return TP({m: -c for m, c in self.n.items()}, self.d)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = TP.of(o)
        if self.d == o.d:
            return TP(P.add(self.n, o.n), self.d).norm()
        return TP(P.add(P.mul(self.n, o.d), P.mul(o.n, self.d)), P.mul(self.d, o.d)).norm()

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-TP.of(o))

    def __rsub__(self, o):
        return TP.of(o) + (-self)

    def __mul__(self, o):
        o = TP.of(o)
        return TP(P.mul(self.n, o.n), P.mul(self.d, o.d)).norm()

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = TP.of(o)
        if not o.n:
            raise Unsupported("division by zero")
        return TP(P.mul(self.n, o.d), P.mul(self.d, o.n)).norm()

    def __rtruediv__(self, o):
        return TP.of(o) / self

    def __pow__(self, n):
        if isinstance(n, V) and not n.f:
            n = n.c
        if n != int(n) or n < 0:
            raise Unsupported("power")
        r = TP({0: Fraction(1)})
        for _ in range(int(n)):
            r = r * self
        return r

    def __abs__(self):
        return self if self >= 0 else -self

    def poly(self):
        if self.d.keys() != {0}:
            raise Unsupported("not a polynomial")
        return self.n

    def v(self):
        """As a value of the engine."""
        a = _polyv(self.x, self.n)
        return a if self.d.keys() == {0} else a / _polyv(self.x, self.d)

    def _c(self, o, op):
        d = self - o
        if len(d.n) > 12:
            raise Unsupported("comparison of long sums")
        if not d.n:
            return op in ("<=", ">=")
        return compare(d.v(), self.x.const(0), op)

    def __lt__(self, o):
        return self._c(o, "<")

    def __le__(self, o):
        return self._c(o, "<=")

    def __gt__(self, o):
        return self._c(o, ">")

    def __ge__(self, o):
        return self._c(o, ">=")

    def __eq__(self, o):
        d = self - o
        if not d.n:
            return True
        n = min((m >> (P.W * self.g)) & P.MASK for m in d.n)
        if n:
            # at zero itself nothing is added from here on: the same value
            return n >= self.N
        return bool(compare(d.v(), self.x.const(0), "=="))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def _polyv(x, p):
    out = x.const(0)
    for m, c in p.items():
        t = x.const(c)
        for j in P.gens_of({m: 1}):
            t = t * vpowi(x.gv(x.gens[j]), (m >> (P.W * j)) & P.MASK)
        out = out + t
    return out


def install(ld):
    """Make the numpy and math stand-ins of a loader pass on such numbers."""
    for mod in (ld.np, ld.math):
        for n in ("abs", "fabs"):
            try:
                f = getattr(mod, n)
            except (Unsupported, AttributeError):
                continue
            setattr(mod, n, (lambda f: lambda a: abs(a) if isinstance(a, TP) else f(a))(f))
    old = I.LH.pw
    I.LH.pw = staticmethod(lambda a, b: a ** b if isinstance(a, TP) else old(a, b))
    ab_ = ld.builtins["abs"]
    ld.builtins["abs"] = lambda a: abs(a) if isinstance(a, TP) else ab_(a)
