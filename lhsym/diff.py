"""Derivatives of symbolic values along a parameter."""
from . import poly as P
from . import funcs as F
from .alg import V, Unsupported, vdiv, vmul


class D:
    """rates: {generator index: derivative as a value}; other generators are derived or constant."""

    def __init__(self, x, rates):
        self.x, self.r = x, dict(rates)

    def gen(self, i):
        if i in self.r:
            return self.r[i]
        x, g = self.x, self.x.gens[i]
        z = x.const(0)
        self.r[i] = z
        if g.kind == "let":
            d = self.val(g.info["def"])
        elif g.kind == "angle" and g.info and g.info.get("c") is not None:
            c, s = g.info["c"], g.info["s"]
            d = c * self.val(s) - s * self.val(c)
        elif g.kind in ("cos", "sin", "cosh", "sinh", "argangle"):
            dep = getattr(g, "of", None)
            d = z
            if dep is not None:
                raise Unsupported("derivative of a free trigonometric function")
        elif g.n and g.rel is not None:
            d = self.poly(g.rel)
            if d.c:
                d = vdiv(d, vmul(x.const(g.n), vpow(x.gv(i if not isinstance(i, int) else g), g.n - 1)))
        elif g.kind in ("opaque", "exp"):
            raise Unsupported("derivative of an opaque function")
        else:
            d = z
        self.r[i] = d
        return d

    def poly(self, p):
        x = self.x
        out = x.const(0)
        for i in {j for m in p for j in P.gens_of({m: 1})}:
            di = self.gen(i)
            if not di.c:
                continue
            q = x.const(0)
            for m, c in p.items():
                e = (m >> (P.W * i)) & P.MASK
                if not e:
                    continue
                t = x.const(c * e)
                for j in P.gens_of({m: 1}):
                    k = ((m >> (P.W * j)) & P.MASK) - (j == i)
                    if k:
                        t = vmul(t, vpow(x.gv(x.gens[j]), k))
                q = q + t
            out = out + q * di
        return out

    def val(self, v):
        x = self.x
        out = x.const(0)
        for fid, e in v.f.items():
            d = self.poly(x.factors[fid])
            if not d.c:
                continue
            f = dict(v.f)
            f[fid] = e - 1
            if not f[fid]:
                del f[fid]
            out = out + V(x, v.c * e, f) * d
        return out


def vpow(v, n):
    return F.vpowi(v, n) if n != 1 else v
