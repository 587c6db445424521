"""C04: transfer angle and orbit normal."""
from .common import TRUST
from ..harness import Sym, is_nan
from ..engine import compare, SymBool
from .. import interp as I, funcs as F
from ..alg import V

LEVEL = "other"
METHOD = ("get_transfer_angle and get_orbit_normal_vector are executed symbolically for both senses on an arbitrary transfer triangle in a "
          "plane of arbitrary inclination, in the reference plane, and in planes containing the z axis.  Per path: cosine and sine of the "
          "angle against the positions and the normal (algebraic identities), sum of both senses, ranges, sides (solver queries).")
BOUNDS = ("triangle: all shapes with transfer angle in (0, pi) of the positions and any size; planes: symbolic inclination in (0, pi) with four "
          "fixed node/latitude pairs, both orientations; reference plane; four exactly polar planes")
ASSUMPTIONS = TRUST + ["node and latitude of the first position are fixed rationals; the functions depend on them only through products"]

FRAMES = [("planar", dict(flip=f)) for f in (False, True)] + \
    [("tilted", dict(flip=f, node=n, lat=l)) for f in (False, True) for n, l in (((4, 3, 5), (5, 12, 13)), ((-4, 3, 5), (-3, 4, 5)), ((3, -4, 5), (12, -5, 13)), ((-12, -5, 13), (8, 15, 17)))] + \
    [("polar", dict(flip=f, n=n)) for f in (False, True) for n in range(4)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def job(R, budget, tier, kind, args):
    S = Sym(R, budget=budget, max_paths=400)
    getattr(S, kind)(**args)
    x, eng = S.x, S.eng
    A = S.ld.load("lamberthub.utils.angles")
    ga = getattr(A, "get_transfer_angle", None)
    gn = getattr(A, "get_orbit_normal_vector", None)
    r1, r2 = S.r1, S.r2
    cr = I.np_cross(r1, r2)
    S.fallback(dict(r1=r1, r2=r2), kind="angles")

    def fn():
        a = {p: ga(r1, r2, p) for p in (True, False)} if ga else None
        n = {p: gn(r1, r2, p) for p in (True, False)} if gn else None
        return a, n

    def on_path(p):
        R.reached += 1
        S.declare(dict(r1=r1, r2=r2), kind="angles", ob="angles")
        und = []
        if p.outcome[0] != "return":
            R.ob("no exception", None)
            und = [1]
        else:
            a, n = p.outcome[1]
            und = []
            t = lambda *z: und.append(1) if z[0] is not True else None
            if a is not None:
                a = {k: I.tov(v) for k, v in a.items()}
                for pro in (True, False):
                    if is_nan(a[pro]):
                        R.ob("angle is a number", None)
                        und.append(1)
                        continue
                    c, s = F.cossin(a[pro])
                    t(S.zero("cos(angle) = r1.r2/(|r1||r2|)", c * S.R1 * S.R2 - dot(r1, r2)))
                    t(S.zero("sin(angle)^2 = |r1 x r2|^2/(|r1||r2|)^2", s * s * S.R1 * S.R1 * S.R2 * S.R2 - dot(cr, cr)))
                    t(S.holds("0 < angle", compare(a[pro], x.const(0), ">")))
                    t(S.holds("angle < 2 pi", compare(a[pro], 2 * x.pi(), "<")))
                    if n is not None:
                        t(S.zero("right-handed: |r1||r2| sin(angle) n = r1 x r2", *[S.R1 * S.R2 * s * n[pro][i] - cr[i] for i in range(3)]))
                if not is_nan(a[True]) and not is_nan(a[False]):
                    t(S.zero("prograde + retrograde = 2 pi", a[True] + a[False] - 2 * x.pi()))
            if n is not None:
                for pro in (True, False):
                    t(S.zero("normal is perpendicular to r1, r2", dot(n[pro], r1), dot(n[pro], r2)))
                    t(S.zero("normal is a unit vector", dot(n[pro], n[pro]) - 1))
                    nz = n[pro][2]
                    t(S.holds("sense of the normal", compare(nz, x.const(0), ">=" if pro else "<=")))
                t(S.zero("normals are opposite", *[n[True][i] + n[False][i] for i in range(3)]))
        R.sample({"frame": kind, **{k: str(v) for k, v in args.items()}, "path": [str(c[0])[:70] + c[1] for c in p.cons][:4]})
        if und:
            for c in S.case(dict(r1=r1, r2=r2), n=4, kind="angles", ob="angles"):
                R.cand(c)
    S.explore(fn, on_path)


def jobs(tier):
    b = 15 if tier == "quick" else 60
    return [dict(name=f"{k} {a}", fn=job, budget=b, args=dict(kind=k, args=a)) for k, a in FRAMES]
