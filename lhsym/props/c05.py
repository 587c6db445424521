"""C05: inclination and node of the transfer plane."""
from .common import TRUST
from .c04 import FRAMES, dot
from ..harness import Sym, is_nan
from ..engine import compare
from .. import interp as I, funcs as F

LEVEL = "other"
METHOD = ("get_orbit_inc_and_raan_from_position_vectors is executed symbolically for both senses; (sin i sin raan, -sin i cos raan, cos i) "
          "must equal the unit normal on the requested side, component by component, and the angles must be in range.")
BOUNDS = FR = "the frames of C04: symbolic inclination with fixed nodes in the four quadrants, reference plane, polar planes; every triangle"
ASSUMPTIONS = TRUST


def job(R, budget, tier, kind, args):
    S = Sym(R, budget=budget, max_paths=400)
    getattr(S, kind)(**args)
    x, eng = S.x, S.eng
    A = S.ld.load("lamberthub.utils.angles")
    f = getattr(A, "get_orbit_inc_and_raan_from_position_vectors", None)
    if f is None:
        R.note("function is gone")
        return
    r1, r2 = S.r1, S.r2
    cr = I.np_cross(r1, r2)
    S.fallback(dict(r1=r1, r2=r2), kind="incraan")

    def fn():
        return {p: f(r1, r2, p) for p in (True, False)}

    def on_path(p):
        R.reached += 1
        S.declare(dict(r1=r1, r2=r2), kind="incraan", ob="incraan")
        und = []
        t = lambda z: und.append(1) if z is not True else None
        if p.outcome[0] != "return":
            R.ob("no exception", None)
            und = [1]
        else:
            nn = {}
            for pro in (True, False):
                inc, raan = (I.tov(v) for v in p.outcome[1][pro])
                if is_nan([inc, raan]):
                    R.ob("angles are numbers", None)
                    und.append(1)
                    continue
                ci, si = F.cossin(inc)
                cO, sO = F.cossin(raan)
                n = nn[pro] = [si * sO, -si * cO, ci]
                t(S.zero("normal from the angles is perpendicular to r1 and r2", dot(n, r1), dot(n, r2)))
                t(S.holds("sense", compare(ci, x.const(0), ">=" if pro else "<=")))
                t(S.holds("inclination in [0, pi]", compare(inc, x.const(0), ">=")))
                t(S.holds("inclination in [0, pi]", compare(inc, x.pi(), "<=")))
                t(S.holds("node in [0, 2 pi)", compare(raan, x.const(0), ">=")))
                t(S.holds("node in [0, 2 pi)", compare(raan, 2 * x.pi(), "<")))
            if len(nn) == 2:
                t(S.zero("prograde and retrograde normals are opposite", *[a + b for a, b in zip(nn[True], nn[False])]))
        R.sample({"frame": kind, **{k: str(v) for k, v in args.items()}, "path": [str(c[0])[:70] + c[1] for c in p.cons][:4]})
        if und:
            for c in S.case(dict(r1=r1, r2=r2), n=4, kind="incraan", ob="incraan"):
                R.cand(c)
    S.explore(fn, on_path)


def jobs(tier):
    b = 15 if tier == "quick" else 60
    return [dict(name=f"{k} {a}", fn=job, budget=b, args=dict(kind=k, args=a)) for k, a in FRAMES]
