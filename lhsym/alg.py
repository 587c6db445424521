"""Exact symbolic reals: factored elements of a tower of algebraic extensions of Q(variables).

A value is  coefficient * prod factor^exponent  with factors primitive integer polynomials over the
generators of a context.  Generators are free variables, roots (w with w^n = +-f), sine and
hyperbolic sine generators (s^2 = (1-c)(1+c), S^2 = (C-1)(C+1)), transcendental constants and angle
atoms.  Sums are reduced with those relations, so a value that is zero in the tower has the empty
numerator: this is how polynomial identities are decided.  Every generator also has a numeric
evaluator over a bank of sample points, used only to steer the search (feasibility witnesses,
counterexample candidates) and never to conclude that a property holds.
"""
from fractions import Fraction
from math import gcd
import contextlib
import numpy as np

from . import poly as P

NPTS = 160
ONEF = Fraction(1)


class Unsupported(BaseException):
    """The code does something the engine cannot follow: the obligation stays undecided."""


class Restart(BaseException):
    """Something was learnt that requires exploring again from the start."""


class Gen:
    __slots__ = ("i", "name", "kind", "sign", "n", "rel", "relV", "ev", "deps", "info", "level", "cache",
                 "ver", "tiny", "lo", "hi", "key")

    def __init__(self, i, name, kind):
        self.i, self.name, self.kind = i, name, kind
        self.sign = None      # '+': > 0, '0+': >= 0, None
        self.n = 0            # algebraic degree of the relation (0: free)
        self.rel = None       # polynomial r with g^n = r
        self.relV = None      # the same as a value
        self.ev = None        # () -> array of samples
        self.info = None
        self.cache = None
        self.tiny = False
        self.lo = self.hi = None
        self.key = None


class Ctx:
    def __init__(self, seed=1, npts=NPTS):
        self.gens = []
        self.names = {}
        self.keyed = {}
        self.factors = []       # fid -> poly
        self.fkey = {}
        self.fgens = []         # fid -> tuple of gens
        self.gfid = {}          # generator -> fid
        self.nice = []
        self.facval = {}
        self.fsign = {}
        self.rng = np.random.default_rng(seed)
        self.npts = npts
        self.subst = {}         # generator -> value, on the current path
        self.sqfree = {}
        self.fz3 = {}
        self.signq = None       # hook: sign of a factor on the current path
        self._pi = None

    # ---------------------------------------------------------------- generators
    def new_gen(self, name, kind, key=None):
        g = Gen(len(self.gens), name, kind)
        self.gens.append(g)
        if key is not None:
            self.keyed[key] = g
            g.key = key
        self.gfid[g.i] = self.intern(P.gen(g.i))
        return g

    def var(self, name, lo=None, hi=None, sampler=None, positive=None):
        """A free real variable (idempotent by name)."""
        k = ("var", name)
        if k in self.keyed:
            return self.gv(self.keyed[k])
        g = self.new_gen(name, "var", k)
        g.lo, g.hi = lo, hi
        if positive or (lo is not None and lo >= 0):
            g.sign = "+"
        n = self.npts
        if sampler is None:
            def sampler(rng, n, lo=lo, hi=hi):
                if lo is not None and hi is not None:
                    u = rng.random(n)
                    return float(lo) + (float(hi) - float(lo)) * u
                if lo is not None:
                    return float(lo) + np.exp(rng.normal(0, 1.2, n))
                return rng.normal(0, 1, n) * np.exp(rng.normal(0, 1, n))
        rng = np.random.default_rng(abs(hash_str(name)) + int(self.rng.bit_generator.seed_seq.entropy))
        arr = np.asarray(sampler(rng, n), dtype=np.clongdouble)
        g.ev = lambda arr=arr: self.take(arr)
        return self.gv(g)

    def gv(self, g):
        return V(self, ONEF, {self.gfid[g.i]: 1})

    def fresh(self, name, **kw):
        i = 0
        while ("var", f"{name}#{i}") in self.keyed and f"{name}#{i}" in self.used:
            i += 1
        nm = f"{name}#{i}"
        self.used.add(nm)
        return self.var(nm, **kw)

    def reset_path(self):
        self.used = set()
        self.subst = {}
        self.psign = {}

    used = set()
    psign = {}
    maxprod = 200_000

    def pi(self):
        k = ("pi",)
        if k not in self.keyed:
            g = self.new_gen("pi", "pi", k)
            g.sign = "+"
            arr = np.full(self.npts, np.pi, dtype=np.clongdouble)
            g.ev = lambda: self.take(arr)
        return self.gv(self.keyed[k])

    # ---------------------------------------------------------------- factors
    def intern(self, p):
        """p primitive with positive leading coefficient."""
        k = frozenset(p.items())
        f = self.fkey.get(k)
        if f is None:
            f = len(self.factors)
            self.fkey[k] = f
            self.factors.append(p)
            self.fgens.append(tuple(P.gens_of(p)))
        return f

    def const(self, c):
        c = Fraction(c)
        return V(self, c, {})

    def add_nice(self, *vals):
        """Polynomials worth trying as divisors."""
        for v in vals:
            for f in v.f:
                if len(self.factors[f]) > 1 and f not in self.nice:
                    self.nice.append(f)

    # ---------------------------------------------------------------- reduction
    def reduce(self, p):
        gens = self.gens
        while True:
            top = None
            for i in reversed(P.gens_of(p)):
                g = gens[i]
                if g.n and P.degree(p, i) >= g.n:
                    top = g
                    break
            if top is None:
                return p
            n, i, r = top.n, top.i, top.rel
            cs = P.coeffs(p, i)
            out = {}
            pw = {0: P.ONE}
            for e, q in cs.items():
                k, rest = divmod(e, n)
                if k:
                    if k not in pw:
                        j = max(x for x in pw if x <= k)
                        cur = pw[j]
                        while j < k:
                            cur = self.reduce(P.mul(cur, r))
                            j += 1
                            pw[j] = cur
                    q = P.mul(q, pw[k])
                if rest:
                    sh = rest << (P.W * i)
                    q = {m + sh: c for m, c in q.items()}
                out = P.add(out, q)
            p = out
            if len(p) > 20000:
                raise TooBig()

    def pmul(self, a, b):
        if len(a) * len(b) > self.maxprod:
            raise TooBig()
        return self.reduce(P.mul(a, b))

    def expand(self, f):
        """Product of factors {fid: e>0} as a reduced polynomial."""
        out = P.ONE
        for fid, e in sorted(f.items(), key=lambda t: (len(self.factors[t[0]]), t[0])):
            p = self.factors[fid]
            for _ in range(e):
                out = self.pmul(out, p)
        return out

    def top_root(self, fid):
        for i in reversed(self.fgens[fid]):
            if self.gens[i].n:
                return self.gens[i]
        return None

    def divide(self, N, fid):
        """N / factor in the tower when the quotient is a polynomial, else None."""
        d = self.factors[fid]
        q = P.exact_div(N, d)
        if q is not None:
            return q
        return self._conj_div(N, d, 0)

    def _conj_div(self, N, d, depth):
        if depth > 4:
            return None
        for i in reversed(P.gens_of(d)):
            g = self.gens[i]
            if g.n == 2:
                break
        else:
            return None
        cs = P.coeffs(d, i)
        a, b = cs.get(0, {}), cs.get(1, {})
        if not b or len(N) * len(d) > 60000:
            return None
        conj = P.add(a, P.neg({m + (1 << (P.W * i)): c for m, c in b.items()}))
        norm = self.reduce(P.add(P.mul(a, a), P.neg(P.mul(P.mul(b, b), g.rel))))
        if not norm or len(norm) > 400:
            return None
        M = self.reduce(P.mul(N, conj))
        if not M:
            return None
        c0, prim = P.primitive(norm)
        q = P.exact_div(M, prim)
        if q is None:
            if len(prim) == 1:
                return None
            q = self._conj_div(M, prim, depth + 1)
            if q is None:
                return None
        if c0 not in (1, -1):
            for c in q.values():
                if c % c0:
                    return None
        return {m: c // c0 for m, c in q.items()}

    def split(self, N, hints=()):
        """Factor a reduced nonzero polynomial: (coefficient, {fid: exponent})."""
        c, p = P.primitive(N)
        out = {}
        mono = P.mono_content(p)
        if mono:
            m = 0
            for i, e in mono:
                m |= e << (P.W * i)
                out[self.gfid[i]] = e
            p = P.div_mono(p, m)
        if len(p) == 1:
            return c * p[0], out
        pk = frozenset(p.items())
        if pk in self.fkey and self.fkey[pk] not in self.sqfree:
            fid = self.fkey[pk]
            out[fid] = out.get(fid, 0) + 1
            return c, out
        for fid in list(hints) + self.nice:
            d = self.factors[fid]
            if len(d) == 1:
                continue
            while len(p) > 1:
                if not set(self.fgens[fid]) <= set(P.gens_of(p)):
                    if not self.top_root(fid):
                        break
                q = self.divide(p, fid)
                if q is None:
                    break
                c2, q = P.primitive(q)
                c *= c2
                out[fid] = out.get(fid, 0) + 1
                p = q
                mono = P.mono_content(p)
                if mono:
                    m = 0
                    for i, e in mono:
                        m |= e << (P.W * i)
                        g = self.gfid[i]
                        out[g] = out.get(g, 0) + e
                    p = P.div_mono(p, m)
        if len(p) == 1:
            return c * p[0], out
        fid = self.intern(p)
        sp = self.sqfree.get(fid)
        if sp:
            for f2, e in sp.items():
                out[f2] = out.get(f2, 0) + e
        else:
            out[fid] = out.get(fid, 0) + 1
        return c, out

    def full_split(self, fid):
        """Irreducible factors of a factor (sympy), remembered."""
        if fid in self.sqfree:
            return self.sqfree[fid]
        p = self.factors[fid]
        if len(p) == 1 or len(p) > 1500:
            return {fid: 1}
        k = ("irr", fid)
        if k in self.keyed:
            return {fid: 1}
        self.keyed[k] = True
        fs = sympy_factor(p, [(i, self.gens[i].name) for i in self.fgens[fid]])
        if len(fs) == 1 and fs[0][1] == 1:
            return {fid: 1}
        out = {}
        for q, e in fs:
            _, q = P.primitive(q)
            f2 = self.intern(q)
            self.keyed[("irr", f2)] = True
            out[f2] = out.get(f2, 0) + e
            if f2 not in self.nice:
                self.nice.append(f2)
        self.sqfree[fid] = out
        return out

    # ---------------------------------------------------------------- numerics
    pick = None

    def take(self, arr):
        return arr if self.pick is None else arr[self.pick]

    @contextlib.contextmanager
    def small(self, idx):
        """Evaluate on a few of the samples only."""
        caches = [g.cache for g in self.gens]
        fv, np_, pk = self.facval, self.npts, self.pick
        self.facval = {}
        self.pick, self.npts = idx, len(idx)
        for g in self.gens:
            g.cache = None
        try:
            yield
        finally:
            for g in self.gens[len(caches):]:
                g.cache = None
            for g, c in zip(self.gens, caches):
                g.cache = c
            self.facval, self.npts, self.pick = fv, np_, pk

    def peval(self, p):
        """(value, size of the largest term) of a polynomial at the current samples, in double precision."""
        gl = P.gens_of(p)
        n = self.npts
        m = len(p)
        val = np.array([float(c) for c in p.values()]).astype(complex)[:, None] * np.ones((1, n))
        mons = list(p)
        with np.errstate(all="ignore"):
            for i in gl:
                sh = P.W * i
                ex = np.array([(mon >> sh) & P.MASK for mon in mons])
                b = self.gval(i).astype(complex)
                tab = b[None, :] ** np.arange(ex.max() + 1)[:, None]
                val = val * tab[ex]
            return val.sum(axis=0), np.abs(val).max(axis=0)

    def gval(self, i):
        g = self.gens[i]
        s = self.subst.get(i)
        if s is not None:
            return s.num()
        if g.cache is None:
            with np.errstate(all="ignore"):
                g.cache = np.asarray(g.ev(), dtype=np.clongdouble)
        return g.cache

    def invalidate(self):
        for g in self.gens:
            if g.kind not in ("var", "pi"):
                g.cache = None
        self.facval.clear()

    def fval(self, fid):
        v = self.facval.get(fid)
        if v is not None:
            return v
        p = self.factors[fid]
        v = self.pval(p)
        self.facval[fid] = v
        return v

    def pval(self, p):
        gl = P.gens_of(p)
        pw = {}
        for i in gl:
            d = P.degree(p, i)
            b = self.gval(i)
            l = [None, b]
            for _ in range(2, d + 1):
                l.append(l[-1] * b)
            pw[i] = l
        out = np.zeros(self.npts, dtype=np.clongdouble)
        with np.errstate(all="ignore"):
            for m, c in p.items():
                t = None
                for i in gl:
                    e = (m >> (P.W * i)) & P.MASK
                    if e:
                        t = pw[i][e] if t is None else t * pw[i][e]
                cf = np.longdouble(c) if abs(c) < (1 << 62) else np.longdouble(str(c))
                out = out + (cf if t is None else t * cf)
        return out


def hash_str(s):
    h = 1469598103934665603
    for ch in s.encode():
        h = ((h ^ ch) * 1099511628211) & 0x7FFFFFFF
    return h


def sympy_factor(p, gens):
    import sympy
    syms = sympy.symbols([f"g{i}" for i, _ in gens])
    d = {}
    for m, c in p.items():
        d[tuple((m >> (P.W * i)) & P.MASK for i, _ in gens)] = c
    po = sympy.Poly.from_dict(d, *syms, domain=sympy.ZZ)
    _, fl = po.factor_list()
    out = []
    for q, e in fl:
        r = {}
        for mon, c in q.terms():
            m = 0
            for (i, _), ex in zip(gens, mon):
                m |= ex << (P.W * i)
            r[m] = int(c)
        out.append((r, e))
    return out


class V:
    """coefficient * prod factor^exponent."""
    __slots__ = ("x", "c", "f", "_n")

    def __init__(self, ctx, c, f):
        self.x, self.c, self.f = ctx, c, f
        self._n = None

    # ------------------------------------------------------------ helpers
    def is_const(self):
        return not self.f or not self.c

    def is_zero(self):
        return not self.c

    def num(self):
        """Samples of the value (complex, NaN where undefined)."""
        out = np.full(self.x.npts, complex(float(self.c)), dtype=np.clongdouble)
        with np.errstate(all="ignore"):
            for fid, e in self.f.items():
                v = self.x.fval(fid)
                out = out * (v ** e if e != 1 else v)
        return out

    def coerce(self, o):
        return coerce(self.x, o)

    def key(self):
        return (self.c, frozenset(self.f.items()))

    def __hash__(self):
        return hash(self.key())

    # ------------------------------------------------------------ arithmetic
    def __neg__(self):
        return V(self.x, -self.c, self.f)

    def __pos__(self):
        return self

    def __add__(self, o):
        o = self.coerce(o)
        if not isinstance(o, V):
            return o
        return vadd(self, o)

    __radd__ = __add__

    def __sub__(self, o):
        o = self.coerce(o)
        if not isinstance(o, V):
            return NotImplemented if o is NotImplemented else -o
        return vadd(self, V(self.x, -o.c, o.f))

    def __rsub__(self, o):
        o = self.coerce(o)
        if not isinstance(o, V):
            return NotImplemented if o is NotImplemented else o
        return vadd(o, V(self.x, -self.c, self.f))

    def __mul__(self, o):
        o = self.coerce(o)
        if not isinstance(o, V):
            return special_mul(self, o)
        return vmul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.coerce(o)
        if not isinstance(o, V):
            if o is NotImplemented:
                return o
            return float("nan") if o != o else self.x.const(0)
        return vdiv(self, o)

    def __rtruediv__(self, o):
        o = self.coerce(o)
        if not isinstance(o, V):
            return NotImplemented if o is NotImplemented else special_mul(self, o)
        return vdiv(o, self)

    def __repr__(self):
        return "V(" + self.show() + ")"

    def show(self, limit=200):
        parts = [] if self.c == 1 and self.f else [str(self.c)]
        for fid, e in self.f.items():
            s = pshow(self.x, self.x.factors[fid])
            if len(self.x.factors[fid]) > 1:
                s = "(" + s + ")"
            parts.append(s + (f"^{e}" if e != 1 else ""))
        t = "*".join(parts)
        return t if len(t) <= limit else t[:limit] + "..."


def pshow(x, p, limit=12):
    out = []
    for n, (m, c) in enumerate(sorted(p.items(), reverse=True)):
        if n >= limit:
            out.append(f"...[{len(p)} terms]")
            break
        t = []
        for i in P.gens_of({m: 1}):
            e = (m >> (P.W * i)) & P.MASK
            t.append(x.gens[i].name + (f"^{e}" if e > 1 else ""))
        if abs(c) != 1 or not t:
            t.insert(0, str(abs(c)))
        out.append(("-" if c < 0 else "+") + "*".join(t))
    s = "".join(out)
    return s[1:] if s.startswith("+") else s


def coerce(x, o):
    if isinstance(o, V):
        return o
    if isinstance(o, bool) or isinstance(o, np.bool_):
        return V(x, Fraction(int(o)), {})
    if isinstance(o, (int, Fraction)):
        return V(x, Fraction(o), {})
    if isinstance(o, (float, np.floating)):
        o = float(o)
        if o != o or o in (float("inf"), float("-inf")):
            return o
        return V(x, Fraction(repr(o)), {})
    if isinstance(o, np.integer):
        return V(x, Fraction(int(o)), {})
    if hasattr(o, "to_V"):
        return o.to_V()
    return NotImplemented


def special_mul(v, o):
    if o is NotImplemented:
        return NotImplemented
    if o != o:
        return o
    s = v.x.sign(v) if hasattr(v.x, "sign") else None
    if s == 0:
        return float("nan")
    if s is None:
        return float("nan")
    return o * s


def vmul(a, b):
    if not a.c or not b.c:
        return V(a.x, Fraction(0), {})
    if not a.f:
        return V(a.x, a.c * b.c, b.f)
    if not b.f:
        return V(a.x, a.c * b.c, a.f)
    x = a.x
    f = dict(a.f)
    c = a.c * b.c
    fix = None
    for fid, e in b.f.items():
        t = f.get(fid, 0) + e
        if t:
            f[fid] = t
        else:
            del f[fid]
    return normal(x, c, f)


def normal(x, c, f):
    """Bring root generators to exponents 0..n-1."""
    for fid in list(f):
        p = x.factors[fid]
        if len(p) == 1:
            i = x.fgens[fid][0]
            g = x.gens[i]
            if g.n:
                e = f[fid]
                if not 0 <= e < g.n:
                    k, r = divmod(e, g.n)
                    if r:
                        f[fid] = r
                    else:
                        del f[fid]
                    return vmul(V(x, c, f), vpowi(g.relV, k))
    return V(x, c, f)


def vpowi(a, n):
    if n == 0:
        return V(a.x, ONEF, {})
    if not a.c:
        if n < 0:
            return float("nan")
        return a
    return normal(a.x, a.c ** n, {f: e * n for f, e in a.f.items()})


def vdiv(a, b):
    if not b.c:
        s = a.x.sign(a) if a.c else 0
        return float("nan") if not s else s * float("inf")
    return vmul(a, vpowi(b, -1))


def terms(v):
    return sum(len(v.x.factors[f]) * abs(e) for f, e in v.f.items() if e > 0) + sum(
        len(v.x.factors[f]) for f, e in v.f.items() if e < 0)


def let(v):
    """A generator standing for a value (its definition is kept and can be unfolded)."""
    x = v.x
    if not v.f:
        return v
    c, b = v.c, V(x, ONEF, v.f)
    if len(v.f) == 1:
        (fid, e), = v.f.items()
        if e == 1 and len(x.factors[fid]) == 1:
            return v
    k = ("let", b.key())
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(f"let{len(x.gens)}", "let", k)
        g.info = {"def": b}
        g.ev = lambda: b.num()
    r = V(x, c, {x.gfid[g.i]: 1})
    s = x.sign0(b) if hasattr(x, "sign0") else None
    if s in (1, -1, "0+", "0-"):
        if s in (1, "0+"):
            g.sign = "+" if s == 1 else "0+"
        else:
            # keep the sign visible on a non-negative generator
            k2 = ("let-", b.key())
            g2 = x.keyed.get(k2)
            if g2 is None:
                g2 = x.new_gen(f"let{len(x.gens)}", "let", k2)
                nb = V(x, -ONEF, v.f)
                g2.info = {"def": nb}
                g2.ev = lambda: nb.num()
                g2.sign = "+" if s == -1 else "0+"
            return V(x, -c, {x.gfid[g2.i]: 1})
    return r


MAXTERMS = 80   # larger sums are built over named operands
ASGTERMS = 24
RETTERMS = 24   # larger function results get a name


class TooBig(Exception):
    pass


def vadd(a, b):
    try:
        return vadd_(a, b)
    except TooBig:
        pass
    ta, tb = terms(a), terms(b)
    la, lb = (let(a), b) if ta >= tb else (a, let(b))
    try:
        return vadd_(la, lb)
    except TooBig:
        return vadd_(let(a), let(b))


def vadd_(a, b):
    if not a.c:
        return b
    if not b.c:
        return a
    x = a.x
    if a.f == b.f:
        c = a.c + b.c
        return V(x, c, a.f if c else {})
    common = {}
    na, nb = {}, {}
    for fid in set(a.f) | set(b.f):
        ea, eb = a.f.get(fid, 0), b.f.get(fid, 0)
        m = min(ea, eb)
        if m:
            common[fid] = m
        if ea > m:
            na[fid] = ea - m
        if eb > m:
            nb[fid] = eb - m
    den = a.c.denominator * b.c.denominator // gcd(a.c.denominator, b.c.denominator)
    ka, kb = int(a.c * den), int(b.c * den)
    N = P.add(P.scale(x.expand(na), ka), P.scale(x.expand(nb), kb))
    if not N:
        return V(x, Fraction(0), {})
    N = x.reduce(N)
    if not N:
        return V(x, Fraction(0), {})
    if len(N) > MAXTERMS:
        raise TooBig()
    hints = [fid for fid, e in common.items() if e < 0]
    c, f = x.split(N, hints)
    return vmul(V(x, Fraction(c, den), f), V(x, ONEF, common)) if f else V(x, Fraction(c, den), common)
