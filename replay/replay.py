"""Confirms counterexamples on the real code of /repo (run with /opt/venv/bin/python).

usage: replay.py FILE   (a replay file written by a check)   or   replay.py -   (cases on stdin)
Each case names what to run and what must hold; `bad` is true when the real code breaks it.
"""
import json
import math
import os
import signal
import sys
import warnings

os.environ.setdefault("NUMBA_DISABLE_JIT", "1")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("LH_REPO", "/repo"), "src"))
sys.dont_write_bytecode = True
import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
import lamberthub as L  # noqa: E402
import oracle as O  # noqa: E402

PI = math.pi


class Late(Exception):
    pass


def _late(*a):
    raise Late()


signal.signal(signal.SIGALRM, _late)
KINDS = {}


def kind(f):
    KINDS[f.__name__.replace("k_", "")] = f
    return f


def bad(d):
    return {"bad": True, "detail": d}


OK = {"bad": False}


def vec(a):
    return np.array(a, dtype=float)


def call(c, **over):
    f = getattr(L, c["solver"])
    kw = dict(M=c.get("M", 0), is_prograde=bool(c.get("pro", True)), is_low_path=bool(c.get("low", True)))
    for k in ("maxiter", "atol", "rtol", "full_output"):
        if c.get(k) is not None:
            kw[k] = c[k]
    kw.update(over)
    if "maxiter" in kw:
        kw["maxiter"] = int(kw["maxiter"])
    r1 = np.array(c["r1"], float).reshape(c["shape1"]) if "shape1" in c else vec(c["r1"])
    r2 = np.array(c["r2"], float).reshape(c["shape2"]) if "shape2" in c else vec(c["r2"])
    if c.get("dtype"):
        r1, r2 = r1.astype(c["dtype"]), r2.astype(c["dtype"])
    return f(c["mu"], r1, r2, c["tof"], **kw)


def attempt(fn, t=8):
    signal.alarm(t)
    try:
        return fn(), None
    except Late:
        return None, "timeout"
    except Exception as e:
        return None, e
    finally:
        signal.alarm(0)


def sane(c):
    """Well conditioned problems only: the thresholds below are meant for them."""
    r1, r2 = vec(c["r1"]), vec(c["r2"])
    n1, n2 = np.linalg.norm(r1), np.linalg.norm(r2)
    if not (1e-3 < n1 / n2 < 1e3) or c["tof"] <= 0 or c["mu"] <= 0:
        return False
    th = O.geometry(r1, r2)[2]
    m = 1e-3 if set(c.get("checks", ())) <= {"conic", "finite"} else 0.02
    if not (m < th < PI - m):
        return False
    s = n1 + n2 + np.linalg.norm(r2 - r1)
    tm = 2 * PI * math.sqrt((s / 4) ** 3 / c["mu"])
    top = 3000 if {"tof", "revs"} & set(c.get("checks", ())) else 60
    return 1e-3 < c["tof"] / tm < top * (1 + c.get("M", 0)) and 1e-4 < n1 < 1e6


TIGHT = dict(atol=1e-9, rtol=1e-11, maxiter=500)
# relative error of the position reached that is still ascribed to tolerances and rounding (100 times the largest of 3000 random problems)
TOF_TOL = dict(gooding1990=1e-8, izzo2015=1e-8, vallado2013=1e-7, mcelreath2025=1e-7, battin1984=1e-7, negrete2024=1e-6, gauss1809=1e-6, arora2013=5e-6,
               jiang2016=1e-5, thorne2004=2e-5, avanzini2008=1e-5, delatorre2018=5e-5, der2011=1e-3, pan2016=2e-2)


@kind
def k_solve(c):
    """Run a solver on a valid problem and check what it returns."""
    if not c.get("any") and not sane(c):
        return {"bad": False, "detail": "ill conditioned"}
    over = dict(TIGHT) if c.get("tight") else {}
    r, e = attempt(lambda: call(c, **over))
    if e is not None:
        if c.get("must_return"):
            return bad(f"{c['solver']} does not answer: {type(e).__name__ if e != 'timeout' else e} {e}")
        if isinstance(e, RuntimeError) and "revs" in c["checks"] and c.get("M"):
            r1, r2 = vec(c["r1"]), vec(c["r2"])
            s = np.linalg.norm(r1) + np.linalg.norm(r2) + np.linalg.norm(r2 - r1)
            if c["tof"] < 0.9 * c["M"] * 2 * PI * math.sqrt((s / 4) ** 3 / c["mu"]):
                return bad(f"{c['solver']}: {e!r} instead of ValueError, although the revolutions alone take longer than the time of flight")
        if isinstance(e, (ValueError, RuntimeError)) or e == "timeout":
            return {"bad": False, "detail": f"raised {e!r}"}
        if "tight" in c or "checks" in c:
            return bad(f"{c['solver']} fails with {type(e).__name__}: {e}")
        return {"bad": False, "detail": f"raised {e!r}"}
    v1, v2 = vec(r[0]), vec(r[1])
    if not (np.all(np.isfinite(v1)) and np.all(np.isfinite(v2))):
        if "finite" in c["checks"]:
            return bad(f"{c['solver']} returns non-finite velocities {v1} {v2}")
        return {"bad": False, "detail": "not finite"}
    r1, r2, mu, tof, M = vec(c["r1"]), vec(c["r2"]), c["mu"], c["tof"], c.get("M", 0)
    if "conic" in c["checks"]:
        d = O.conic_error(mu, r1, v1, r2, v2)
        if not d < 1e-6 * max(1, 0.02 / math.sin(O.geometry(r1, r2)[2])) ** 2:
            return bad(f"{c['solver']}: the states are on different conics, relative disagreement {d:.3g}")
    if "sense" in c["checks"]:
        n, th = O.normal(r1, r2, bool(c.get("pro", True)))
        polar = abs(n[2]) < 1e-9

        def leaves(va, vb):
            for r, v, w in ((r1, va, "initial"), (r2, vb, "final")):
                h = np.cross(r, v)
                if np.linalg.norm(h - (h @ n) * n) > 1e-7 * np.linalg.norm(r) * np.linalg.norm(v):
                    return w
        sides = [np.cross(r, v) @ n / (np.linalg.norm(r) * np.linalg.norm(v)) for r, v in ((r1, v1), (r2, v2))]
        w = leaves(v1, v2)
        if w:
            return bad(f"{c['solver']}: the {w} state leaves the transfer plane")
        if not polar:
            for s, w in zip(sides, ("initial", "final")):
                if s < -1e-9:
                    return bad(f"{c['solver']}: the {w} state moves in the wrong sense (h.n = {s:.3g})")
        else:
            # neither sense is prograde: but both requests must be told apart
            if sides[0] * sides[1] < -1e-12:
                return bad(f"{c['solver']}: the two states move in opposite senses")
            o, e = attempt(lambda: call(c, is_prograde=not c.get("pro", True), **over))
            if e is None and np.all(np.isfinite(o[0])):
                t = np.cross(r1, vec(o[0])) @ n / (np.linalg.norm(r1) * np.linalg.norm(vec(o[0])))
                if t * sides[0] > 1e-12:
                    return bad(f"{c['solver']}: prograde and retrograde move in the same sense in a plane through the z axis")
    if "tof" in c["checks"] or "revs" in c["checks"]:
        try:
            rr, vv, dE = O.propagate(mu, r1, v1, tof)
        except ArithmeticError:
            return {"bad": False, "detail": "propagation"}
        err = np.linalg.norm(rr - r2) / (np.linalg.norm(r2) + 0.1 * np.linalg.norm(v2) * tof / (1 + 20 * M))
        # rounding is magnified in transfers falling almost straight to the centre
        s = np.linalg.norm(r1) + np.linalg.norm(r2) + np.linalg.norm(r2 - r1)
        fast = not M and tof < 0.03 * 2 * PI * math.sqrt((s / 4) ** 3 / mu)
        if not err < c.get("toltof", 2e-3 if fast or not c.get("tight") else TOF_TOL.get(c["solver"], 5e-5) if not M else 2e-5):
            return bad(f"{c['solver']}: after the time of flight the returned orbit is at {rr}, not at {r2} (relative {err:.3g})")
        if "revs" in c["checks"] and M >= 1:
            k = None if dE is None else int(dE / (2 * PI))
            if k != M:
                return bad(f"{c['solver']}: the returned orbit makes {k} revolutions instead of {M}")
    if "side" in c["checks"] and M >= 1:
        # v1 = (B + A) along the chord + (B - A) along r1, where A and B are proportional to Der's x and y; time over x is steeper or flatter
        n1, n2, ch = np.linalg.norm(r1), np.linalg.norm(r2), np.linalg.norm(r2 - r1)
        vc, vr = np.linalg.lstsq(np.array([(r2 - r1) / ch, r1 / n1]).T, v1, rcond=None)[0]
        m, n = n1 + n2 + ch, n1 + n2 - ch
        x, y = math.sqrt(m / mu) * (vc - vr) / 2, math.sqrt(n / mu) * (vc + vr) / 2
        tau = 4 * tof * math.sqrt(mu / m ** 3)
        th = O.normal(r1, r2, bool(c.get("pro", True)))[1]
        sg = math.copysign(math.sqrt(n / m), math.cos(th / 2))
        slope = 3 * x * tau - 2 * (1 - sg ** 3 * x / abs(y))
        if abs(slope) > 3e-3 * tau and (slope > 0) != bool(c.get("low", True)):
            return bad(f"{c['solver']}: the {'low' if c.get('low', True) else 'high'} path is on the other side of the minimum time (slope {slope / tau:.3g})")
    return {"bad": False, "detail": "holds"}


@kind
def k_flag(c):
    """Without revolutions both values of is_low_path give the same outcome."""
    kw = {k: c[k] for k in ("atol", "rtol", "maxiter") if c.get(k) is not None}
    o = [attempt(lambda: call({**c, "low": low}, **kw)) for low in (True, False)]
    if any(e == "timeout" for _, e in o):
        return {"bad": False, "detail": "no answer"}
    (a, e), (b, f) = o
    if type(e) is not type(f):
        return bad(f"{c['solver']}: is_low_path changes the outcome without revolutions: {e!r} {f!r}")
    if e is None and not all(np.array_equal(s, t, equal_nan=True) for s, t in zip(a, b)):
        return bad(f"{c['solver']}: is_low_path changes the velocities without revolutions: {a} {b}")
    return OK


@kind
def k_reject(c):
    """An invalid problem must raise ValueError."""
    r, e = attempt(lambda: call(c))
    if isinstance(e, ValueError):
        return OK
    if e == "timeout":
        return bad(f"{c['solver']} does not reject: {c['why']} (no answer)")
    if e is not None:
        return bad(f"{c['solver']} raises {type(e).__name__} for: {c['why']}")
    return bad(f"{c['solver']} answers although: {c['why']}")


@kind
def k_valid(c):
    """A valid problem must not be rejected by the shared validation."""
    from lamberthub.utils import assertions as S
    r, e = attempt(lambda: S.assert_parameters_are_valid(c["mu"], vec(c["r1"]), vec(c["r2"]), c["tof"], c["M"]))
    return bad(f"valid parameters rejected: {e!r}") if e is not None else OK


def main():
    if sys.argv[1] == "-":
        cases = json.load(sys.stdin)
    else:
        cases = [json.load(open(sys.argv[1]))["case"]]
    for c in cases:
        try:
            r = KINDS[c["kind"]](c)
        except Late:
            r = {"bad": False, "error": "late"}
        except Exception as e:
            r = {"bad": False, "error": f"{type(e).__name__}: {e}"}
        print("RESULT " + json.dumps({k: (bool(v) if isinstance(v, np.bool_) else v) for k, v in r.items()}, default=str), flush=True)


if __name__ == "__main__":
    import kinds  # noqa: F401
    main()
