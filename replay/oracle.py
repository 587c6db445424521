"""Independent reference calculations used to confirm counterexamples on the real code.

Nothing here is imported from lamberthub: Kepler propagation by universal variables with bracketing,
conic invariants and geometry by their definitions.
"""
import math
import numpy as np

PI = math.pi


def c23(z):
    if abs(z) < 0.5:
        a, b, t2, t3 = 0.0, 0.0, 0.5, 1 / 6
        k = 0
        while True:
            a, b = a + t2, b + t3
            k += 1
            t2 *= -z / ((2 * k + 1) * (2 * k + 2))
            t3 *= -z / ((2 * k + 2) * (2 * k + 3))
            if abs(t2) < 1e-20:
                return a, b
    if z > 0:
        s = math.sqrt(z)
        return (1 - math.cos(s)) / z, (s - math.sin(s)) / (z * s)
    s = math.sqrt(-z)
    if s > 700:
        raise OverflowError
    return (math.cosh(s) - 1) / -z, (math.sinh(s) - s) / (-z * s)


def propagate(mu, r, v, t):
    """Position and velocity after time t, and the universal variable times sqrt(alpha) (the eccentric anomaly swept)."""
    r, v = np.asarray(r, float), np.asarray(v, float)
    r0 = math.sqrt(r @ r)
    k = math.sqrt(mu)
    s0 = (r @ v) / k
    al = 2 / r0 - (v @ v) / mu

    def tm(x):
        c2, c3 = c23(al * x * x)
        return s0 * x * x * c2 + (1 - al * r0) * x ** 3 * c3 + r0 * x
    target = k * t
    lo, hi = 0.0, math.sqrt(r0)
    n = 0
    while True:
        try:
            if tm(hi) >= target:
                break
            lo = hi
            hi *= 2
        except OverflowError:
            hi = (lo + hi) / 2
        n += 1
        if n > 400:
            raise ArithmeticError("no bracket")
    for _ in range(200):
        m = (lo + hi) / 2
        if m in (lo, hi):
            break
        if tm(m) >= target:
            hi = m
        else:
            lo = m
    x = (lo + hi) / 2
    c2, c3 = c23(al * x * x)
    f = 1 - x * x * c2 / r0
    g = t - x ** 3 * c3 / k
    rr = f * r + g * v
    rn = math.sqrt(rr @ rr)
    fd = k / (rn * r0) * x * (al * x * x * c3 - 1)
    gd = 1 - x * x * c2 / rn
    return rr, fd * r + gd * v, (x * math.sqrt(al) if al > 0 else None)


def invariants(mu, r, v):
    r, v = np.asarray(r, float), np.asarray(v, float)
    h = np.cross(r, v)
    rn = math.sqrt(r @ r)
    E = v @ v / 2 - mu / rn
    e = np.cross(v, h) / mu - r / rn
    return h, E, e


def conic_error(mu, r1, v1, r2, v2):
    """Relative disagreement between the conics of two states."""
    h1, E1, e1 = invariants(mu, r1, v1)
    h2, E2, e2 = invariants(mu, r2, v2)
    n = lambda a: float(np.linalg.norm(a))
    hs = n(r1) * n(v1) + n(r2) * n(v2)
    Es = mu / n(r1) + mu / n(r2) + n(v1) ** 2 / 2 + n(v2) ** 2 / 2
    es = 2 + n(v1) ** 2 * n(r1) / mu + n(v2) ** 2 * n(r2) / mu
    return max(n(h1 - h2) / hs, abs(E1 - E2) / Es, n(e1 - e2) / es)


def geometry(r1, r2):
    r1, r2 = np.asarray(r1, float), np.asarray(r2, float)
    c = np.cross(r1, r2)
    cn = float(np.linalg.norm(c))
    th = math.atan2(cn, float(r1 @ r2))
    return c, cn, th


def normal(r1, r2, prograde):
    """Unit normal requested, with the convention of the library for planes that contain the z axis."""
    c, cn, th = geometry(r1, r2)
    h = c / cn
    a = h[2]
    up = a >= 0 if prograde else a < 0
    return (h, th) if up else (-h, 2 * PI - th)
