"""Sparse multivariate polynomials with integer coefficients.

A polynomial is a dict {packed monomial: int}.  The exponent of generator i sits in bits
[W*i, W*(i+1)) of the packed monomial, so that monomials multiply by integer addition and integer
comparison is a lexicographic order in which later generators are the most significant.
"""
from math import gcd

W = 10
MASK = (1 << W) - 1

ONE = {0: 1}


def const(c):
    return {0: int(c)} if c else {}


def gen(i, e=1):
    return {e << (W * i): 1}


def add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        t = r.get(m, 0) + c
        if t:
            r[m] = t
        else:
            del r[m]
    return r


def neg(a):
    return {m: -c for m, c in a.items()}


def scale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def mul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        return {m + n: c * d for n, d in b.items()}
    r = {}
    get = r.get
    bi = list(b.items())
    for m, c in a.items():
        for n, d in bi:
            k = m + n
            r[k] = get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def gens_of(a):
    m = 0
    for k in a:
        m |= k
    out = []
    i = 0
    while m:
        if m & MASK:
            out.append(i)
        m >>= W
        i += 1
    return out


def content(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def lead(a):
    m = max(a)
    return m, a[m]


def primitive(a):
    """Return (signed content, primitive part with positive leading coefficient)."""
    g = content(a)
    if a[max(a)] < 0:
        g = -g
    if g == 1:
        return 1, a
    return g, {m: c // g for m, c in a.items()}


def mono_content(a):
    """Greatest monomial dividing every term, as a list of (gen, exponent)."""
    it = iter(a)
    first = next(it)
    cand = []
    i, m = 0, first
    while m:
        e = m & MASK
        if e:
            cand.append((i, e))
        m >>= W
        i += 1
    for k in it:
        if not cand:
            return []
        cand = [(i, min(e, (k >> (W * i)) & MASK)) for i, e in cand]
        cand = [(i, e) for i, e in cand if e]
    return cand


def div_mono(a, mono):
    return {m - mono: c for m, c in a.items()}


def mono_divides(m, n):
    """Does monomial m divide monomial n?"""
    while m:
        if (m & MASK) > (n & MASK):
            return False
        m >>= W
        n >>= W
    return True


def degree(a, i):
    s = W * i
    return max(((m >> s) & MASK) for m in a) if a else 0


def coeffs(a, i):
    """Split by the exponent of generator i: {exponent: poly without i}."""
    s = W * i
    out = {}
    for m, c in a.items():
        e = (m >> s) & MASK
        out.setdefault(e, {})[m - (e << s)] = c
    return out


def exact_div(a, b):
    """a / b if the division is exact over the integers, else None."""
    if not a:
        return {}
    lb, cb = lead(b)
    if len(b) == 1:
        if cb not in (1, -1):
            for c in a.values():
                if c % cb:
                    return None
        for m in a:
            if not mono_divides(lb, m):
                return None
        return {m - lb: c // cb for m, c in a.items()}
    # quick rejection on degrees and trailing terms
    for i in gens_of(b):
        if degree(b, i) > degree(a, i):
            return None
    tb = min(b)
    ta = min(a)
    if not mono_divides(tb, ta) or a[ta] % b[tb]:
        return None
    r = dict(a)
    q = {}
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    bi = [(m, c) for m, c in b.items() if m != lb]
    limit = 40000
    while heap:
        m = -heapq.heappop(heap)
        c = r.pop(m, 0)
        if not c:
            continue
        if m < lb or not mono_divides(lb, m) or c % cb:
            return None
        k = m - lb
        d = c // cb
        q[k] = d
        limit -= 1
        if limit < 0:
            return None
        for n, e in bi:
            t = k + n
            if t in r:
                v = r[t] - d * e
                if v:
                    r[t] = v
                else:
                    r[t] = 0
            else:
                r[t] = -d * e
                heapq.heappush(heap, -t)
    return q


def subs_poly(a, i, p):
    """Substitute polynomial p for generator i."""
    cs = coeffs(a, i)
    out = dict(cs.get(0, {}))
    pw = ONE
    for e in range(1, max(cs) + 1):
        pw = mul(pw, p)
        if e in cs:
            out = add(out, mul(cs[e], pw))
    return out


def key(a):
    return tuple(sorted(a.items()))
