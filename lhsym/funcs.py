"""Roots, absolute values, trigonometric and hyperbolic functions of symbolic reals."""
from fractions import Fraction
import numpy as np
from math import gcd

from . import poly as P
from .alg import Restart, V, Ctx, Unsupported, vadd, vmul, vpowi, vdiv, normal, coerce, ONEF

NAN = float("nan")
INF = float("inf")


def is_special(a):
    return isinstance(a, float) and (a != a or a in (INF, -INF))


# -------------------------------------------------------------------------------- signs
def interval(x, p):
    """Bounds of a polynomial from the bounds of its generators (None: unbounded), with strictness."""
    lo, hi = Fraction(0), Fraction(0)
    slo = shi = False
    for m, c in p.items():
        a, b, sa, sb = Fraction(1), Fraction(1), False, False   # monomial in [a,b]; strict flags
        for i in P.gens_of({m: 1}):
            e = (m >> (P.W * i)) & P.MASK
            l, h, sl, sh = gbounds(x, i)
            l, h, sl, sh = ipow(l, h, sl, sh, e)
            a, b, sa, sb = imul((a, b, sa, sb), (l, h, sl, sh))
        if c < 0:
            a, b, sa, sb = (None if b is None else b), (None if a is None else a), sb, sa
        a = None if a is None else a * c
        b = None if b is None else b * c
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
        slo, shi = slo or sa, shi or sb
        if lo is None and hi is None:
            return None, None, False, False
    return lo, hi, slo, shi


def ipow(l, h, sl, sh, e):
    if e == 1:
        return l, h, sl, sh
    if e % 2:
        return (None if l is None else l ** e), (None if h is None else h ** e), sl, sh
    if l is not None and l >= 0:
        return l ** e, (None if h is None else h ** e), sl, sh
    if h is not None and h <= 0:
        return h ** e, (None if l is None else l ** e), sh, sl
    if l is None or h is None:
        return Fraction(0), None, False, False
    m = max(-l, h)
    return Fraction(0), m ** e, False, False


def imul(p, q):
    a, b, sa, sb = p
    l, h, sl, sh = q
    if a is not None and a >= 0 and l is not None and l >= 0:
        lo = a * l
        hi = None if b is None or h is None else b * h
        return lo, hi, (sa and sl) or (sa and l > 0) or (sl and a > 0), (sb or sh)
    if None in (a, b, l, h):
        if a is not None and a >= 0 and h is not None and h <= 0:
            return (None if b is None or l is None else b * l), a * h, False, (sa and sh) or (sa and h < 0) or (sh and a > 0)
        if l is not None and l >= 0 and b is not None and b <= 0:
            return (None if a is None or h is None else a * h), b * l, False, (sb and sl) or (sl and b < 0) or (sb and l > 0)
        return None, None, False, False
    c = [a * l, a * h, b * l, b * h]
    return min(c), max(c), False, False


def gbounds(x, i):
    g = x.gens[i]
    lo, hi = g.lo, g.hi
    strict_lo = strict_hi = True
    if g.kind == "pi":
        return Fraction(3141592653589793, 10 ** 15), Fraction(3141592653589794, 10 ** 15), True, True
    if g.kind in ("cos", "sin"):
        return Fraction(-1), Fraction(1), False, False
    if g.kind == "cosh":
        return Fraction(1), None, False, False
    if lo is None and g.sign in ("+", "0+"):
        lo = Fraction(0)
        strict_lo = g.sign == "+"
    if g.kind == "angle":
        strict_lo = strict_hi = False
        if lo is not None:
            lo = Fraction(lo).limit_denominator(10 ** 6) - Fraction(1, 10 ** 5)
        if hi is not None:
            hi = Fraction(hi).limit_denominator(10 ** 6) + Fraction(1, 10 ** 5)
    if g.kind == "var" and g.info and g.info.get("closed"):
        strict_lo = strict_hi = False
    return (None if lo is None else Fraction(lo)), (None if hi is None else Fraction(hi)), strict_lo, strict_hi


def static_sign(x, fid):
    """Sign of a factor from the bounds of the generators alone: 1, -1, None."""
    if fid in x.fsign:
        return x.fsign[fid]
    lo, hi, slo, shi = interval(x, x.factors[fid])
    s = None
    if lo is not None and (lo > 0 or (lo == 0 and slo)):
        s = 1
    elif hi is not None and (hi < 0 or (hi == 0 and shi)):
        s = -1
    elif lo is not None and lo == 0:
        s = "0+"
    elif hi is not None and hi == 0:
        s = "0-"
    x.fsign[fid] = s
    return s


def fsign(x, fid):
    s = static_sign(x, fid)
    if s in (1, -1):
        return s
    t = x.psign.get(fid)
    if t in (1, -1, 0):
        return t
    if x.signq is not None:
        t = x.signq(fid)
        if t is not None:
            x.psign[fid] = t
            return t
    return s


def sign(x, v, weak=False):
    """1, -1, 0 or None; with weak=True also '0+' and '0-'."""
    if not v.c:
        return 0
    s = 1 if v.c > 0 else -1
    w = False
    for fid, e in v.f.items():
        if e % 2 == 0:
            t = fsign(x, fid) if weak or e > 0 else 1
            if t == 0:
                return 0
            if t not in (1, -1):
                w = True
            continue
        t = fsign(x, fid)
        if t == 0:
            return 0
        if t is None:
            return None
        if t in ("0+", "0-"):
            w = True
            t = 1 if t == "0+" else -1
        s *= t
    if w:
        return ("0+" if s > 0 else "0-") if weak else None
    return s


Ctx.sign = lambda self, v, weak=False: sign(self, v, weak)


# -------------------------------------------------------------------------------- roots
def root_of_factor(x, fid, sg, n):
    """The generator w >= 0 with w^n = sg * factor."""
    k = ("root", fid, sg, n)
    g = x.keyed.get(k)
    if g is None:
        p = x.factors[fid]
        g = x.new_gen(f"rt{n}<{'-' if sg < 0 else ''}{pshort(x, p)}>", "root", k)
        g.n = n
        g.rel = P.scale(p, sg)
        g.relV = V(x, Fraction(sg), {fid: 1})
        g.sign = "+" if static_sign(x, fid) in (1, -1) else "0+"

        def ev(fid=fid, sg=sg, n=n):
            v = x.fval(fid) * sg
            with np.errstate(all="ignore"):
                return np.sqrt(v) if n == 2 else np.power(v, np.longdouble(1) / n)
        g.ev = ev
    return x.gv(g)


def root_of_prime(x, p, n):
    k = ("rootp", p, n)
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(f"rt{n}({p})", "root", k)
        g.n = n
        g.rel = {0: p}
        g.relV = x.const(p)
        g.sign = "+"
        arr = np.full(x.npts, np.power(np.longdouble(p), np.longdouble(1) / n), dtype=np.clongdouble)
        g.ev = lambda arr=arr: x.take(arr)
    return x.gv(g)


def pshort(x, p):
    from .alg import pshow
    s = pshow(x, p, 4)
    return s if len(s) < 60 else s[:57] + "..."


def primes(n):
    out = {}
    d = 2
    while d * d <= n and d < 20000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def vpow(v, e):
    """v ** e for a rational exponent e, v taken as non-negative when e is not an integer."""
    x = v.x
    e = Fraction(e)
    if e.denominator == 1:
        if abs(e) > 400:
            raise Unsupported("large power")
        return vpowi(v, int(e))
    n = e.denominator
    if not v.c:
        return v if e > 0 else INF
    m = e.numerator
    v = unlet(v, n)
    # split factors before taking roots
    f = {}
    for fid, k in v.f.items():
        if k % n and len(x.factors[fid]) > 1:
            for f2, k2 in x.full_split(fid).items():
                f[f2] = f.get(f2, 0) + k * k2
        else:
            f[fid] = f.get(fid, 0) + k
    f = {a: b for a, b in f.items() if b}
    vc = v.c
    if n == 2:
        # (1 - cos)(1 + cos) is the square of the sine
        for pair, g, c in x.cspairs:
            if all(f.get(a, 0) % 2 for a in pair):
                a, b = pair
                k = 1 if f[a] > 0 else -1
                f[a] -= k
                f[b] -= k
                t = x.gfid[g.i]
                f[t] = f.get(t, 0) + 2 * k
                vc = vc / c ** k
        f = {a: b for a, b in f.items() if b}
    v = w = V(x, vc, f)
    s = sign(x, w, weak=True)
    if s in (-1, "0-"):
        return NAN if s == -1 else V(x, Fraction(0), {})
    out = x.const(1)
    tot = 1
    unknown = []
    for fid, k in f.items():
        t = fsign(x, fid)
        if t in (None, 0):
            unknown.append((fid, k))
            continue
        t = 1 if t in (1, "0+") else -1
        kk = k * m
        a, r = divmod(kk, n)
        if a:
            part = vpowi(V(x, ONEF, {fid: 1}), a)
            if t < 0 and a % 2:
                part = -part
            out = vmul(out, part)
        if r:
            out = vmul(out, vpowi(root_of_factor(x, fid, t, n), r))
        if t < 0 and k % 2:
            tot = -tot
    c = v.c * tot
    if unknown:
        # one radical of the product of the factors of unknown sign
        even = True
        for fid, k in unknown:
            if k % n:
                even = False
        prod = x.const(1 if c > 0 else -1)
        if even and n == 2:
            # sqrt(f^2k) = |f|^k
            av = x.const(1)
            for fid, k in unknown:
                q = k * m // n
                base = V(x, ONEF, {fid: 1})
                av = vmul(av, vpowi(vabs(base), q) if q % 2 else vpowi(base, q))
            out = vmul(out, av)
            c = abs(c)
        else:
            odd = {}
            for fid, k in unknown:
                if k % n == 0 and n == 2:
                    base = V(x, ONEF, {fid: 1})
                    q = k * m // n
                    out = vmul(out, vpowi(vabs(base), q) if q % 2 else vpowi(base, q))
                else:
                    odd[fid] = k
            if n == 2:
                # sqrt of product of unknown factors: even parts leave, odd parts stay
                pp = x.const(1 if c > 0 else -1)
                for fid, k in odd.items():
                    if k < 0 or k > 1:
                        h = (k - 1) // 2
                        base = V(x, ONEF, {fid: 1})
                        hm = h * m
                        out = vmul(out, vpowi(vabs(base), hm) if hm % 2 else vpowi(base, hm))
                    pp = vmul(pp, V(x, ONEF, {fid: 1}))
                if len(pp.f) == 1:
                    (fid, _), = pp.f.items()
                    out = vmul(out, vpowi(root_of_factor(x, fid, 1 if pp.c > 0 else -1, 2), m))
                else:
                    N = x.expand(pp.f)
                    cc, N = P.primitive(N)
                    fid = x.intern(N)
                    x.keyed[("irr", fid)] = True
                    out = vmul(out, vpowi(root_of_factor(x, fid, 1 if pp.c * cc > 0 else -1, 2), m))
            else:
                raise Unsupported("root of a value of unknown sign")
            c = abs(c)
    if c < 0:
        c = -c
    for p, k in list(primes(c.numerator).items()) + [(p, -k) for p, k in primes(c.denominator).items()]:
        a, r = divmod(k * m, n)
        if a:
            out = vmul(out, x.const(Fraction(p) ** a))
        if r:
            out = vmul(out, vpowi(root_of_prime(x, p, n), r))
    return out


def unlet(v, n):
    """Open names whose definition has several factors, so that roots can act on each."""
    x = v.x
    for _ in range(6):
        for fid, k in v.f.items():
            p = x.factors[fid]
            if k % n and len(p) == 1:
                g = x.gens[x.fgens[fid][0]]
                if g.kind == "let" and (len(g.info["def"].f) > 1 or any(abs(t) > 1 for t in g.info["def"].f.values())):
                    break
        else:
            return v
        rest = V(x, v.c, {f: t for f, t in v.f.items() if f != fid})
        v = vmul(rest, vpowi(g.info["def"], k))
    return v


def vsqrt(v):
    if is_special(v):
        return v if v > 0 else NAN
    return vpow(v, Fraction(1, 2))


def vabs(v):
    if is_special(v):
        return abs(v)
    x = v.x
    s = sign(x, v, weak=True)
    if s == 0:
        return v
    if s in (1, "0+"):
        return v
    if s in (-1, "0-"):
        return -v
    s = x.fork_sign(v)
    return v if s >= 0 else -v


# -------------------------------------------------------------------------------- angles
def angle_atom(x, key, name, kind, cos, sin, ev, lo=None, hi=None, extra=None):
    """A transcendental generator with known cosine and sine (or hyperbolic ones)."""
    if not isinstance(cos, V) or not isinstance(sin, V):
        return float("nan")     # outside of the domain
    # the cosine and sine may have been simplified with the signs of a path: another path has a generator of its own
    k = ("angle", key, cos.key(), sin.key())
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(name, "angle", k)
        g.info = {"type": kind, "c": cos, "s": sin, "mult": {}, "extra": extra}
        g.lo, g.hi = lo, hi
        if lo is not None and lo >= 0:
            g.sign = "0+"
        g.ev = ev
    return x.gv(g)


def free_angle(x, name, lo, hi, div=1, kind="circ", sampler=None):
    """A free angle variable: div times a base angle whose cosine and sine are generators."""
    k = ("angle", ("free", name))
    if k not in x.keyed:
        bn = name if div == 1 else f"{name}/{div}"
        base = x.var("~" + bn, sampler=sampler or (lambda rng, n: (float(lo) if lo is not None else -4) / div + ((float(hi) if hi is not None else 4) - (float(lo) if lo is not None else -4)) / div * rng.random(n)))
        bg = x.gens[list(base.f)[0] and P.gens_of(x.factors[list(base.f)[0]])[0]] if False else x.gens[x.fgens[list(base.f)[0]][0]]
        c, s = cs_gens(x, ("free", name), bn, lambda: x.gval(bg.i), kind)
        g = x.new_gen(bn, "angle", k)
        g.info = {"type": kind, "c": c, "s": s, "mult": {}, "extra": None}
        g.lo = None if lo is None else float(lo) / div
        g.hi = None if hi is None else float(hi) / div
        if g.lo is not None and g.lo >= 0:
            g.sign = "+"
        g.ev = lambda: x.gval(bg.i)
    g = x.keyed[k]
    return vmul(x.gv(g), x.const(div))


def cs_gens(x, key, name, argev, kind):
    kc, ks = ("c", key, kind), ("s", key, kind)
    if kc not in x.keyed:
        if kind == "circ":
            gc = x.new_gen(f"cos[{name}]", "cos", kc)
            gc.ev = lambda: np.cos(argev())
            gs = x.new_gen(f"sin[{name}]", "sin", ks)
            gs.ev = lambda: np.sin(argev())
            gs.n = 2
            gs.rel = {0: 1, 2 << (P.W * gc.i): -1}
            one = x.const(1)
            gs.relV = vmul(one - x.gv(gc), one + x.gv(gc))
        else:
            gc = x.new_gen(f"cosh[{name}]", "cosh", kc)
            gc.ev = lambda: np.cosh(argev())
            gc.sign = "+"
            gs = x.new_gen(f"sinh[{name}]", "sinh", ks)
            gs.ev = lambda: np.sinh(argev())
            gs.n = 2
            gs.rel = {0: -1, 2 << (P.W * gc.i): 1}
            one = x.const(1)
            gs.relV = vmul(x.gv(gc) - one, x.gv(gc) + one)
        x.add_nice(one - x.gv(gc), one + x.gv(gc))
        if len(gs.relV.f) == 2:
            x.cspairs.append((frozenset(gs.relV.f), gs, gs.relV.c))
    return x.gv(x.keyed[kc]), x.gv(x.keyed[ks])


def decompose(x, v, kind):
    """v as a list of (generator or None, key, Fraction) summands with v = sum q * base."""
    if not v.c:
        return []
    if not v.f:
        return [("const", v, ONEF)]
    neg = any(e < 0 for e in v.f.values())
    if neg:
        # distribute a denominator only if it is free of angle atoms in the numerator
        return [("base", V(x, ONEF, v.f), v.c)]
    multi = [fid for fid in v.f if len(x.factors[fid]) > 1]
    if not multi:
        if len(v.f) == 1:
            (fid, e), = v.f.items()
            g = x.gens[x.fgens[fid][0]]
            if e == 1 and g.kind == "angle":
                return [("atom", g, v.c)]
            if e == 1 and g.kind == "pi":
                return [("pi", g, v.c)]
        return [("base", V(x, ONEF, v.f), v.c)]
    N = x.expand(v.f)
    out = []
    for m, c in N.items():
        if m == 0:
            out.append(("const", x.const(v.c * c), ONEF))
            continue
        gl = P.gens_of({m: 1})
        if len(gl) == 1 and m == 1 << (P.W * gl[0]) and x.gens[gl[0]].kind in ("angle", "pi"):
            g = x.gens[gl[0]]
            out.append(("atom" if g.kind == "angle" else "pi", g, v.c * c))
        else:
            f = {x.gfid[i]: (m >> (P.W * i)) & P.MASK for i in gl}
            out.append(("base", V(x, ONEF, f), v.c * c))
    return out


def base_atom(x, b, kind):
    """Generator of cos/sin (or cosh/sinh) of an arbitrary argument."""
    key = ("arg", b.key(), kind)
    k = ("angle", key)
    g = x.keyed.get(k)
    if g is None:
        c, s = cs_gens(x, key, b.show(30), lambda: b.num(), kind)
        g = x.new_gen(f"arg<{b.show(30)}>", "argangle", k)
        g.info = {"type": kind, "c": c, "s": s, "mult": {}, "extra": None}
        g.ev = lambda: b.num()
        if kind == "hyp" and b.c > 0 and all(k % 2 == 0 or static_sign(x, t) == 1 for t, k in b.f.items()) and len(s.f) == 1:
            gs = x.gens[x.fgens[next(iter(s.f))][0]]
            if gs.kind == "sinh" and not gs.sign:
                gs.sign = "+"
    return g


def half(x, g, c, s, lo, hi, kind):
    """cos and sin of half an angle with cosine c, sine s in [lo, hi]."""
    eps = 1e-9
    one = x.const(1)
    hlf = Fraction(1, 2)
    if kind == "hyp":
        ch = vsqrt((one + c) * hlf)
        return ch, vdiv(s, ch * 2)
    pi = np.pi
    if lo is not None and lo >= -eps and hi is not None and hi <= pi + eps:
        return vsqrt((one + c) * hlf), vsqrt((one - c) * hlf)
    if lo is not None and hi is not None and lo >= -pi - eps and hi <= pi + eps:
        ch = vsqrt((one + c) * hlf)
        if is_zero_v(ch):
            raise Unsupported("half angle at pi")
        return ch, vdiv(s, ch * 2)
    if lo is not None and hi is not None and lo >= -eps and hi <= 2 * pi + eps:
        sh = vsqrt((one - c) * hlf)
        if is_zero_v(sh):
            raise Unsupported("half angle at 0")
        return vdiv(s, sh * 2), sh
    raise Unsupported("half of an angle of unknown range")


def is_zero_v(v):
    return isinstance(v, V) and not v.c


def multiple(x, g, q):
    """cos, sin of q * (angle generator)."""
    info = g.info
    k = info["mult"].get(q)
    if k is not None:
        return k
    d = q.denominator
    kind = info["type"]
    c, s, lo, hi = info["c"], info["s"], g.lo, g.hi
    dd = 1
    while dd < d:
        kk = ("h", dd * 2)
        if kk in info["mult"]:
            c, s = info["mult"][kk]
        else:
            if g.kind == "argangle":
                # halves of free arguments: make the half the base angle
                b = ("argb", g.key, dd * 2)
                c2, s2 = cs_gens(x, b, f"{g.name}/{dd * 2}", lambda g=g, dd=dd: x.gval(g.i) / (dd * 2), kind)
                raise Unsupported("half of a free argument")
            c, s = half(x, g, c, s, lo, hi, kind)
            info["mult"][kk] = (c, s)
        lo = None if lo is None else lo / 2
        hi = None if hi is None else hi / 2
        dd *= 2
    if dd != d:
        raise Unsupported("third of an angle")
    n = q.numerator
    cc, ss = powcs(x, c, s, abs(n), kind)
    if n < 0:
        ss = -ss
    info["mult"][q] = (cc, ss)
    return cc, ss


def powcs(x, c, s, n, kind):
    rc, rs = x.const(1), x.const(0)
    bc, bs = c, s
    while n:
        if n & 1:
            rc, rs = addcs(rc, rs, bc, bs, kind)
        n >>= 1
        if n:
            bc, bs = addcs(bc, bs, bc, bs, kind)
    return rc, rs


def addcs(c1, s1, c2, s2, kind):
    if kind == "circ":
        return c1 * c2 - s1 * s2, s1 * c2 + c1 * s2
    return c1 * c2 + s1 * s2, s1 * c2 + c1 * s2


def pi_cs(x, q):
    q = q % 2
    r2 = lambda: vsqrt(x.const(Fraction(1, 2)))
    table = {
        Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1),
    }
    if q in table:
        a, b = table[q]
        return x.const(a), x.const(b)
    if q.denominator == 4:
        n = q.numerator
        sc = {1: (1, 1), 3: (-1, 1), 5: (-1, -1), 7: (1, -1)}[n]
        return r2() * sc[0], r2() * sc[1]
    raise Unsupported("cosine of an unusual fraction of pi")


def turns_cs(x, b, q):
    """cos, sin of q * pi * (product of integers), else None."""
    if b.c != 1:
        return None
    seen = False
    ints = []
    for fid, e in b.f.items():
        if e < 0 or len(x.factors[fid]) != 1:
            return None
        for i in x.fgens[fid]:
            g = x.gens[i]
            if g.kind == "pi" and e == 1 and not seen:
                seen = True
            elif g.info and isinstance(g.info, dict) and g.info.get("int"):
                ints.append(g)
            else:
                return None
    if not seen or not ints or q.denominator != 1:
        return None
    if q.numerator % 2 == 0:
        return x.const(1), x.const(0)
    k = ("parity", b.key())
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(f"parity<{b.show(16)}>", "opaque", k)
        g.lo, g.hi = -1, 1
        g.ev = lambda: np.cos(b.num())
        g.n, g.rel = 2, {0: 1}
        g.relV = x.const(1)
    return x.gv(g), x.const(0)


def cossin(v, kind="circ"):
    """(cos v, sin v) or (cosh v, sinh v)."""
    if is_special(v):
        return NAN, NAN
    x = v.x
    k = ("cs", kind, v.key())
    if k in x.cscache:
        return x.cscache[k]
    c, s = x.const(1), x.const(0)
    halves = {}
    for t, g, q in decompose(x, v, kind):
        if t == "pi":
            if kind == "hyp":
                raise Unsupported("hyperbolic function of pi")
            c2, s2 = pi_cs(x, q)
        elif t == "atom" and g.info["type"] == kind:
            c2, s2 = multiple(x, g, q)
        else:
            if t == "const":
                b, q = V(x, ONEF, {}), g.c
                if kind == "circ" or True:
                    b = x.const(abs(q))
                    q = Fraction(1 if q > 0 else -1)
            elif t == "atom":
                b = x.gv(g)
            else:
                b = g
                if all(not x.gens[i].info and x.gens[i].kind == "root" and x.gens[i].relV is not None and not x.gens[i].relV.f for f in b.f for i in x.fgens[f]):
                    # a number: not taken for a fraction of another one
                    b = V(x, abs(q), b.f)
                    q = Fraction(1 if q > 0 else -1)
                elif kind == "circ":
                    t2 = turns_cs(x, b, q)
                    if t2 is not None:
                        c, s = addcs(c, s, *t2, kind)
                        continue
            # one base per argument up to a power of two: the finest fraction seen gets the generators
            d = q.denominator
            base = x.argdiv.get((kind, b.key()), 2)
            if base % d:
                # remember the finer fraction and start again
                if base * d > 96:
                    raise Unsupported("fraction of a free argument")
                x.argdiv[(kind, b.key())] = base * d // gcd(base, d)
                x.cscache.clear()
                raise Restart()
            a = base_atom(x, V(x, b.c / base, b.f), kind)
            c2, s2 = multiple(x, a, q * base)
        c, s = addcs(c, s, c2, s2, kind)
    x.cscache[k] = (c, s)
    return c, s


Ctx.cscache = None
Ctx.cspairs = ()
Ctx.argdiv = None


def init(x):
    x.cscache = {}
    x.argdiv = {}
    x.cspairs = []


def vcos(v):
    return NAN if is_special(v) else cossin(v)[0]


def vsin(v):
    return NAN if is_special(v) else cossin(v)[1]


def vtan(v):
    if is_special(v):
        return NAN
    c, s = cossin(v)
    # prefer half-angle style quotients that cancel
    return vdiv(s, c)


def vcosh(v):
    return INF if is_special(v) else cossin(v, "hyp")[0]


def vsinh(v):
    return v if is_special(v) else cossin(v, "hyp")[1]


def vtanh(v):
    if is_special(v):
        return NAN if v != v else (1.0 if v > 0 else -1.0)
    c, s = cossin(v, "hyp")
    return vdiv(s, c)


def out_of(v, lo, hi):
    """Fork when an argument may be outside [lo, hi]; True when it is outside."""
    x = v.x
    if lo is not None and x.branch_cmp(v - lo, "<"):
        return True
    if hi is not None and x.branch_cmp(v - hi, ">"):
        return True
    return False


def lin_angle(v, kind):
    """v = cos or sin of something?  Not used: inverse functions build atoms by value."""
    return None


def cos_of(x, v):
    """The angle in [0, pi] whose cosine v is by construction, if there is one."""
    if v.c != 1 or len(v.f) != 1:
        return None
    (fid, e), = v.f.items()
    if e != 1 or len(x.factors[fid]) != 1:
        return None
    for g in x.gens:
        if g.kind == "angle" and g.info["type"] == "circ" and g.lo is not None and g.hi is not None and g.lo >= -1e-9 and g.hi <= np.pi + 1e-9:
            if g.info["c"].key() == v.key():
                return x.gv(g)
    return None


def varccos(v):
    if is_special(v):
        return NAN
    x = v.x
    if not v.f:
        if v.c == 1:
            return x.const(0)
        if v.c == -1:
            return x.pi()
        if v.c == 0:
            return x.pi() * Fraction(1, 2)
    g = cos_of(x, v)
    if g is not None:
        return g
    if out_of(v, -1, 1):
        return NAN
    one = x.const(1)
    s = vsqrt((one - v) * (one + v))
    return angle_atom(x, ("acos", v.key()), f"acos<{v.show(24)}>", "circ", v, s,
                      lambda: np.arccos(v.num()), 0.0, np.pi)


def varcsin(v):
    if is_special(v):
        return NAN
    x = v.x
    if not v.f:
        if v.c == 0:
            return x.const(0)
        if abs(v.c) == 1:
            return x.pi() * Fraction(1, 2) * int(v.c)
    if v.c < 0:
        r = varcsin(-v)
        return r if is_special(r) else -r
    if out_of(v, -1, 1):
        return NAN
    one = x.const(1)
    c = vsqrt((one - v) * (one + v))
    sg = sign(x, v, weak=True)
    lo, hi = -np.pi / 2, np.pi / 2
    if sg in (1, "0+"):
        lo = 0.0
    elif sg in (-1, "0-"):
        hi = 0.0
    return angle_atom(x, ("asin", v.key(), lo, hi), f"asin<{v.show(24)}>", "circ", c, v,
                      lambda: np.arcsin(v.num()), lo, hi)


def varctan(v):
    if is_special(v):
        return v
    x = v.x
    if not v.c:
        return x.const(0)
    if v.c < 0:
        return -varctan(-v)
    # v = n/d: cos = |d|/sqrt(n^2+d^2) avoids nested fractions
    one = x.const(1)
    num, den = split_fraction(v)
    sd = sign(x, den, weak=True)
    if sd in (-1, "0-"):
        num, den = -num, -den
    elif sd is None or sd == 0:
        num, den = v, one
    h = vsqrt(num * num + den * den)
    c, s = vdiv(den, h), vdiv(num, h)
    sg = sign(x, v, weak=True)
    lo, hi = -np.pi / 2, np.pi / 2
    if sg in (1, "0+"):
        lo = 0.0
    elif sg in (-1, "0-"):
        hi = 0.0
    return angle_atom(x, ("atan", v.key(), lo, hi), f"atan<{v.show(24)}>", "circ", c, s,
                      lambda: np.arctan(v.num()), lo, hi)


def split_fraction(v):
    x = v.x
    n = V(x, Fraction(v.c.numerator), {f: e for f, e in v.f.items() if e > 0})
    d = V(x, Fraction(v.c.denominator), {f: -e for f, e in v.f.items() if e < 0})
    return n, d


def varctan2(s, c):
    if is_special(s) or is_special(c):
        return NAN
    x = s.x if isinstance(s, V) else c.x
    s, c = coerce(x, s), coerce(x, c)
    if not s.c and not c.c:
        return x.const(0)
    ss = sign(x, s, weak=True)
    if not s.c or ss == 0:
        sc = sign(x, c)
        if sc is None:
            sc = x.fork_sign(c)
        return x.const(0) if sc >= 0 else x.pi()
    h = vsqrt(s * s + c * c)
    if is_special(h):
        return NAN
    if is_zero_v(h):
        return x.const(0)
    cc, sn = vdiv(c, h), vdiv(s, h)
    lo, hi = -np.pi, np.pi
    if ss in (1, "0+"):
        lo = 0.0
    elif ss in (-1, "0-"):
        hi = 0.0
    sc = sign(x, c, weak=True)
    if sc in (1, "0+"):
        lo, hi = max(lo, -np.pi / 2), min(hi, np.pi / 2)
    return angle_atom(x, ("atan2", s.key(), c.key(), lo, hi), f"atan2<{s.show(14)},{c.show(14)}>", "circ", cc, sn,
                      lambda: np.arctan2(s.num().real, c.num().real), lo, hi)


def varccosh(v):
    if is_special(v):
        return v if v > 0 else NAN
    x = v.x
    if out_of(v, 1, None):
        return NAN
    one = x.const(1)
    if v.is_const() and v.c == 1:
        return x.const(0)
    s = vsqrt((v - one) * (v + one))
    return angle_atom(x, ("acosh", v.key()), f"acosh<{v.show(24)}>", "hyp", v, s,
                      lambda: np.arccosh(v.num()), 0.0, None)


def varcsinh(v):
    if is_special(v):
        return v
    x = v.x
    if not v.c:
        return x.const(0)
    if v.c < 0:
        return -varcsinh(-v)
    c = vsqrt(v * v + 1)
    sg = sign(x, v, weak=True)
    return angle_atom(x, ("asinh", v.key()), f"asinh<{v.show(24)}>", "hyp", c, v,
                      lambda: np.arcsinh(v.num()), 0.0 if sg in (1, "0+") else None, 0.0 if sg in (-1, "0-") else None)


def varctanh(v):
    if is_special(v):
        return NAN
    x = v.x
    if not v.c:
        return x.const(0)
    if v.c < 0:
        return -varctanh(-v)
    one = x.const(1)
    if x.branch_cmp(v - one, ">=") or x.branch_cmp(v + one, "<="):
        return NAN
    n, d = split_fraction(v)
    sd = sign(x, d, weak=True)
    if sd in (-1, "0-"):
        n, d = -n, -d
    elif sd is None or sd == 0:
        n, d = v, one
    h = vsqrt((d - n) * (d + n))
    sg = sign(x, v, weak=True)
    return angle_atom(x, ("atanh", v.key()), f"atanh<{v.show(24)}>", "hyp", vdiv(d, h), vdiv(n, h),
                      lambda: np.arctanh(v.num()), 0.0 if sg in (1, "0+") else None, 0.0 if sg in (-1, "0-") else None)


def vlog(v):
    if is_special(v):
        return v if v > 0 else NAN
    x = v.x
    if not v.c:
        return -INF
    if v.is_const() and v.c == 1:
        return x.const(0)
    if x.branch_cmp(v, "<="):
        return NAN
    inv = vpowi(v, -1)
    h = Fraction(1, 2)
    return angle_atom(x, ("log", v.key()), f"log<{v.show(24)}>", "hyp", (v + inv) * h, (v - inv) * h,
                      lambda: np.log(v.num()), None, None, extra=v)


def vexp(v):
    if is_special(v):
        return v if v != v else (INF if v > 0 else v.__class__(0))
    x = v.x
    if not v.c:
        return x.const(1)
    out = x.const(1)
    for t, g, q in decompose(x, v, "hyp"):
        if t == "atom" and g.info["type"] == "hyp":
            e = g.info["extra"]
            if e is not None:
                out = vmul(out, vpow(e, q))
            else:
                c, s = multiple(x, g, q)
                out = vmul(out, c + s)
        else:
            b = x.gv(g) if t in ("atom", "pi") else g
            if t == "const":
                b, q = x.const(1), g.c
            k = ("exp", b.key(), q)
            gg = x.keyed.get(k)
            if gg is None:
                gg = x.new_gen(f"exp<{b.show(20)}*{q}>", "opaque", k)
                gg.sign = "+"
                gg.ev = lambda b=b, q=q: np.exp(b.num() * float(q))
            out = vmul(out, x.gv(gg))
    return out


def opaque(x, name, args, fn, sign=None, lo=None, hi=None):
    """An uninterpreted function of symbolic reals."""
    k = ("opq", name, tuple(a.key() if isinstance(a, V) else a for a in args))
    g = x.keyed.get(k)
    if g is None:
        g = x.new_gen(f"{name}<{','.join(a.show(16) if isinstance(a, V) else str(a) for a in args)}>", "opaque", k)
        g.sign, g.lo, g.hi = sign, lo, hi

        def ev():
            with np.errstate(all="ignore"):
                return fn(*[a.num() if isinstance(a, V) else a for a in args])
        g.ev = ev
    return x.gv(g)
