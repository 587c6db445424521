"""C01: invalid problems are rejected with ValueError, and valid ones are not rejected by the validation."""
from .common import SOLVERS, TRUST
from ..harness import Sym, is_nan
from ..engine import compare
from .. import interp as I

LEVEL = "other"
METHOD = ("Every solver is executed symbolically with each invalid input class, all other inputs arbitrary reals (both senses); every "
          "feasible path must end in ValueError. The shared validation is executed on arbitrary valid inputs and no path may raise.")
BOUNDS = "position vectors are arbitrary real 3-vectors (6 variables), mu, tof and M arbitrary reals; wrong shapes: sizes 1, 2, 4 and 1x3"
ASSUMPTIONS = TRUST


def vec(x, n, k=3):
    return I.arr([x.var(f"{n}{i}") for i in range(k)])


WHYS = ["mu", "tof", "M", "r1 null", "r2 null", "equal", "r1 size 2", "r2 size 2", "r1 size 4", "r2 size 4", "r1 size 1", "r2 shape 1x3"]


def neg_sampler(r, n):
    import numpy as np
    a = -np.exp(r.normal(0, 1, n))
    a[: n // 4] = 0
    return a


def job(R, budget, tier, solver):
    import time
    total = Sum()
    t0 = time.time()
    for n, why in enumerate(WHYS):
        left = budget - (time.time() - t0)
        one(R, solver, why, max(1.0, left / (len(WHYS) - n)), total, tier)
    total.put(R)


class Sum:
    """Adds up several explorations in one report."""

    def __init__(self):
        self.obs, self.cands, self.samples, self.notes, self.paths = {}, [], [], [], {}
        self.reached, self.complete = 0, True

    def take(self, R):
        for k, o in R.obs.items():
            d = self.obs.setdefault(k, [0, 0, 0])
            for i in range(3):
                d[i] += o[i]
        self.cands += R.cands
        self.samples += R.samples
        self.notes += R.notes
        for k, v in R.paths.items():
            self.paths[k] = self.paths.get(k, 0) + v
        self.reached += R.reached
        self.complete = bool(self.complete and R.complete)
        R.clear()

    def put(self, R):
        R.clear()
        R.obs, R.cands, R.samples, R.notes, R.paths = self.obs, self.cands, self.samples[:3], self.notes[:40], self.paths
        R.reached, R.complete = self.reached, self.complete


def one(R, solver, why, budget, total, tier):
    S = Sym(R, budget=budget, max_paths=64)
    x, eng = S.x, S.eng
    eng.report_all = True
    f = getattr(S.mod, solver)
    mu = x.var("mu", **({} if why == "mu" else dict(lo=0)), **(dict(sampler=neg_sampler) if why == "mu" else {}))
    tof = x.var("tof", **({} if why == "tof" else dict(lo=0)), **(dict(sampler=neg_sampler) if why == "tof" else {}))
    if why == "M":
        M = x.var("M", sampler=lambda r, n: -r.integers(1, 4, n))
        eng.base.append((-M - 1, ">="))
    else:
        M = 0
    if why == "mu":
        eng.base.append((mu, "<="))
    if why == "tof":
        eng.base.append((tof, "<="))
    r1, r2 = vec(x, "p"), vec(x, "s")
    extra = {}
    z = x.const(0)
    if why == "r1 null":
        r1 = I.arr([z, z, z])
    if why == "r2 null":
        r2 = I.arr([z, z, z])
    if why == "equal":
        r2 = r1.copy()
    if "size" in why:
        n, k = why.split(" size ")
        v = vec(x, "w", int(k))
        if n == "r1":
            r1 = v
        else:
            r2 = v
    if why.endswith("1x3"):
        r2 = I.arr([[x.var("s0"), x.var("s1"), x.var("s2")]])
        extra["shape2"] = [1, 3]

    def fn():
        pro = bool(eng.choice(2, "sense"))
        eng.path.pro = pro
        return f(mu, r1, r2, tof, M=M, is_prograde=pro)

    def on_path(p):
        ok = p.outcome[0] == "raise" and isinstance(p.outcome[1], ValueError)
        R.reached += 1
        if ok:
            R.ob("raises ValueError: " + why, True)
            R.sample({"solver": solver, "invalid": why, "path": [str(c[0])[:60] + c[1] for c in p.cons][:4], "outcome": "ValueError"})
            return
        cs = S.case(dict(mu=mu, r1=r1, r2=r2, tof=tof, M=M), n=2, kind="reject", solver=solver, why=why, pro=getattr(p, "pro", True), ob=why, **extra)
        R.ob("raises ValueError: " + why, False if cs else None)
        for c in cs:
            if why == "M":
                c["M"] = min(-1, round(c["M"]))
            R.cand(c, 2)
    S.explore(fn, on_path)
    total.take(R)


def valid(R, budget, tier):
    S = Sym(R, budget=budget, max_paths=500)
    x, eng = S.x, S.eng
    ld = S.ld
    A = ld.load("lamberthub.utils.assertions")
    if not hasattr(A, "assert_parameters_are_valid"):
        R.note("assert_parameters_are_valid is gone")
        return
    mu, tof, M = x.var("mu", 0), x.var("tof", 0), x.var("M", sampler=lambda r, n: r.integers(0, 4, n))
    eng.base.append((M, ">="))
    r1, r2 = vec(x, "p"), vec(x, "s")

    def fn():
        z = lambda v: compare(v, x.const(0), "!=")
        # vectors are not null and differ: some component does
        eng.assume(z(r1[eng.choice(3, "nonzero")]))
        eng.assume(z(r2[eng.choice(3, "nonzero")]))
        i = eng.choice(3, "differ")
        eng.assume(z(r1[i] - r2[i]))
        return A.assert_parameters_are_valid(mu, r1, r2, tof, M)

    def on_path(p):
        R.reached += 1
        if p.outcome[0] == "return":
            R.ob("valid accepted", True)
            return
        cs = S.case(dict(mu=mu, r1=r1, r2=r2, tof=tof, M=M), n=2, kind="valid", ob="valid")
        R.ob("valid accepted", False if cs else None)
        for c in cs:
            R.cand(c)
    S.explore(fn, on_path)


def jobs(tier):
    b = 20 if tier == "quick" else 60
    return [dict(name=s, fn=job, budget=b, args=dict(solver=s)) for s in SOLVERS] + [dict(name="valid", fn=valid, budget=b)]
