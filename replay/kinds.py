"""Further kinds of cases."""
import math
import numpy as np
import lamberthub as L
import oracle as O
from __main__ import kind, bad, OK, vec, call, attempt, sane, TIGHT

PI = math.pi


@kind
def k_collinear(c):
    r, e = attempt(lambda: call(c))
    if isinstance(e, (ValueError, RuntimeError)) and not isinstance(e, (NotImplementedError, RecursionError)):
        return OK
    if e is not None:
        return bad(f"{c['solver']} on collinear positions: {e!r}")
    v1, v2 = vec(r[0]), vec(r[1])
    if not (np.all(np.isfinite(v1)) and np.all(np.isfinite(v2))):
        return bad(f"{c['solver']} returns {v1} {v2} for collinear positions {c['r1']} {c['r2']}")
    r1, r2 = vec(c["r1"]), vec(c["r2"])
    if r1 @ r2 < 0:
        return bad(f"{c['solver']} makes up {v1} {v2} for opposite positions {c['r1']} {c['r2']}")
    for v in (v1, v2):
        if np.linalg.norm(np.cross(v, r1)) > 1e-7 * np.linalg.norm(v) * np.linalg.norm(r1):
            return bad(f"{c['solver']} makes up {v1} {v2} for collinear positions {c['r1']} {c['r2']}")
    return OK


def _mod(name):
    import importlib
    return importlib.import_module("lamberthub." + name)


@kind
def k_angles(c):
    A = _mod("utils.angles")
    r1, r2 = vec(c["r1"]), vec(c["r2"])
    cr, cn, th = O.geometry(r1, r2)
    if not 1e-3 < th < PI - 1e-3:
        return {"bad": False, "detail": "ill conditioned"}
    h = cr / cn
    a, n = {}, {}
    for p in (True, False):
        a[p], e = attempt(lambda: float(A.get_transfer_angle(r1, r2, p)))
        n[p], e2 = attempt(lambda: vec(A.get_orbit_normal_vector(r1, r2, p)))
        if e is not None or e2 is not None:
            return bad(f"exception {e!r} {e2!r}")
        if not (np.isfinite(a[p]) and np.all(np.isfinite(n[p]))):
            return bad(f"angle {a[p]} normal {n[p]}")
        if abs(math.cos(a[p]) - math.cos(th)) > 1e-9 or not 0 < a[p] < 2 * PI:
            return bad(f"transfer angle {a[p]} for positions {th} apart")
        if abs(n[p] @ n[p] - 1) > 1e-9 or np.linalg.norm(math.sin(a[p]) * n[p] - math.sin(th) * h) > 1e-8:
            return bad(f"normal {n[p]} is not the right-handed unit normal of angle {a[p]}")
        if (n[p][2] if p else -n[p][2]) < -1e-12:
            return bad(f"normal {n[p]} for {'prograde' if p else 'retrograde'} motion")
    if abs(a[True] + a[False] - 2 * PI) > 1e-9 or np.linalg.norm(n[True] + n[False]) > 1e-9:
        return bad(f"prograde {a[True]} {n[True]} against retrograde {a[False]} {n[False]}")
    return OK


@kind
def k_incraan(c):
    A = _mod("utils.angles")
    r1, r2 = vec(c["r1"]), vec(c["r2"])
    cr, cn, th = O.geometry(r1, r2)
    if not 1e-3 < th < PI - 1e-3:
        return {"bad": False, "detail": "ill conditioned"}
    h = cr / cn
    ns = {}
    for p in (True, False):
        r, e = attempt(lambda: A.get_orbit_inc_and_raan_from_position_vectors(r1, r2, p))
        if e is not None:
            return bad(f"exception {e!r}")
        i, o = map(float, r)
        if not (0 <= i <= PI + 1e-12 and -1e-12 <= o < 2 * PI):
            return bad(f"inclination {i} node {o} out of range")
        n = np.array([math.sin(i) * math.sin(o), -math.sin(i) * math.cos(o), math.cos(i)])
        if np.linalg.norm(np.cross(n, h)) > 1e-6:
            return bad(f"inclination {i} and node {o} are not those of the plane with normal {h}")
        if (n[2] if p else -n[2]) < -1e-9:
            return bad(f"inclination {i} for {'prograde' if p else 'retrograde'} motion")
        ns[p] = n
    if np.linalg.norm(ns[True] + ns[False]) > 1e-6:
        return bad(f"prograde and retrograde normals are not opposite: {ns}")
    return OK


def _near_turn(a, b, tol):
    return math.hypot(math.cos(a) - math.cos(b), math.sin(a) - math.sin(b)) <= tol


@kind
def k_anomaly(c):
    A = _mod("utils.angles")
    n, t, e = c["fn"], float(c["arg"]), float(c["ecc"])
    con = "par" if n.endswith("B") or n.startswith("B") else "hyp" if "H" in n.split("_") else "ell"
    ee = () if con == "par" else (e,)
    inv = "_to_".join(reversed(n.split("_to_")))
    if con == "hyp" and (e < 1 + 1e-9 or e > 1e4 or (n.startswith("nu") and 1 + e * math.cos(t) < 1e-3)):
        return {"bad": False, "detail": "ill conditioned"}
    if con == "ell" and not 0 <= e < 1 - 1e-9:
        return {"bad": False, "detail": "ill conditioned"}
    if n[0] in "nE" and abs(math.cos(t / 2)) < 1e-3 or abs(t) > 50:
        return {"bad": False, "detail": "ill conditioned"}
    r, x = attempt(lambda: float(getattr(A, n)(t, *ee)))
    if x is not None or not math.isfinite(r):
        return bad(f"{n}({t}, {e}) gives {r} {x!r}")
    b, x = attempt(lambda: float(getattr(A, inv)(r, *ee)))
    if x is not None or not math.isfinite(b):
        return bad(f"{inv}({n}({t}, {e})) gives {b} {x!r}")
    tol = 1e-8 if con == "par" else 1e-8 + 1e-13 / abs(e - 1)
    if n[0] in "nE":
        if not _near_turn(b, t, tol):
            return bad(f"{inv}({n}({t}, {e})) = {b}")
    elif abs(b - t) > tol * (1 + abs(t)) * math.exp(min(20, abs(t))):
        return bad(f"{inv}({n}({t}, {e})) = {b}")
    nu, E = (t, r) if n.startswith("nu") else (r, t)
    if con == "ell":
        d = 1 - e * math.cos(E)
        w = max(abs(math.cos(nu) - (math.cos(E) - e) / d), abs(math.sin(nu) - math.sqrt(1 - e * e) * math.sin(E) / d))
    elif con == "hyp":
        d = e * math.cosh(E) - 1
        w = max(abs(math.cos(nu) - (e - math.cosh(E)) / d), abs(math.sin(nu) - math.sqrt(e * e - 1) * math.sinh(E) / d))
    else:
        w = abs(E - math.tan(nu / 2)) / (1 + E * E)
    if w > 10 * tol:
        return bad(f"{n}({t}, {e}) = {r} misses the conic relation by {w}")
    if not n.endswith(("_H", "_B")) and abs(r) > PI + 1e-12:
        return bad(f"{n}({t}, {e}) = {r} is more than half a turn")
    if abs(t) < PI and r * t < -1e-12:
        return bad(f"{n}({t}, {e}) = {r} changes sign")
    return OK


@kind
def k_kepler(c):
    K = _mod("utils.kepler")
    nu, e, con = float(c["nu"]), float(c["ecc"]), c["con"]
    f = K.kepler_from_nu
    if con == "neg":
        r, x = attempt(lambda: f(nu, e))
        return OK if isinstance(x, ValueError) else bad(f"kepler_from_nu({nu}, {e}) gives {r} {x!r} instead of ValueError")
    if abs(nu) > PI - 1e-2 or (e > 1 and 1 + e * math.cos(nu) < 1e-2) or 0 < abs(e - 1) < 1e-7 or e > 1e3:
        return {"bad": False, "detail": "ill conditioned"}
    # the time since periapsis by quadrature of the area law: dM/dnu = const/(1 + e cos nu)^2
    k = 2.0 if e == 1 else abs(1 - e * e) ** 1.5
    x, w = np.polynomial.legendre.leggauss(400)
    for t in (nu, -nu, 0.0):
        r, er = attempt(lambda: float(f(t, e)))
        z = (x + 1) / 2 * t
        ref = float(np.sum(w / 2 * t * k / (1 + e * np.cos(z)) ** 2))
        if er is not None or not abs(r - ref) <= 1e-4 * abs(ref) + 1e-13:
            return bad(f"kepler_from_nu({t}, {e}) = {r} {er!r}, the area swept gives {ref}")
    return OK


def _state(mu, p, e, inc, raan, argp, nu):
    c, s = math.cos, math.sin
    P = np.array([c(raan) * c(argp) - s(raan) * s(argp) * c(inc), s(raan) * c(argp) + c(raan) * s(argp) * c(inc), s(argp) * s(inc)])
    Q = np.array([-c(raan) * s(argp) - s(raan) * c(argp) * c(inc), -s(raan) * s(argp) + c(raan) * c(argp) * c(inc), c(argp) * s(inc)])
    return p / (1 + e * c(nu)) * (c(nu) * P + s(nu) * Q), math.sqrt(mu / p) * (-s(nu) * P + (e + c(nu)) * Q)


ELS = ("mu", "p", "ecc", "inc", "raan", "argp", "nu")


def _els(c):
    return [float(c[k]) for k in ELS]


@kind
def k_coe2rv(c):
    E = _mod("utils.elements")
    a = _els(c)
    if 1 + a[2] * math.cos(a[6]) < 1e-3 or not (1e-6 < a[1] < 1e6 and 1e-6 < a[0] < 1e8):
        return {"bad": False, "detail": "ill conditioned"}
    rv, x = attempt(lambda: np.asarray(E.coe2rv(*a), float))
    r, v = _state(*a)
    if x is not None or rv.shape != (2, 3):
        return bad(f"coe2rv{tuple(a)} gives {rv} {x!r}")
    w = max(np.linalg.norm(rv[0] - r) / np.linalg.norm(r), np.linalg.norm(rv[1] - v) / np.linalg.norm(v))
    return OK if w < 1e-9 else bad(f"coe2rv{tuple(a)} = {rv.tolist()}, the elements describe {r.tolist()} {v.tolist()}")


@kind
def k_rotation(c):
    E = _mod("utils.elements")
    ax, (i, j), t = c["axis"], c["entry"], float(c["angle"])
    m, x = attempt(lambda: np.asarray(E.rotation_matrix(t, ax), float))
    if x is not None:
        return bad(f"rotation_matrix({t}, {ax}): {x!r}")
    u = np.eye(3)[ax]
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    w = (math.cos(t) * np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * np.outer(u, u))[i, j]
    if abs(m[i, j] - w) < 1e-12:
        return OK
    sig = "sign" if abs(m[i, j] + w) < 1e-12 else "other"
    return {**bad(f"rotation_matrix({t}, {ax})[{i},{j}] = {m[i, j]}, a rotation has {w}"), "sig": sig}


@kind
def k_rv2coe(c):
    E = _mod("utils.elements")
    a = _els(c)
    mu, p, e, inc, raan, argp, nu = a
    if 1 + e * math.cos(nu) < 1e-2 or abs(e - 1) < 1e-3 or 0 < e < 1e-4 or not (1e-4 < p < 1e6 and 1e-4 < mu < 1e8) or 0 < math.sin(inc) < 1e-3 and 1e-15 < abs(math.sin(inc)):
        return {"bad": False, "detail": "ill conditioned"}
    r, v = _state(*a)
    if abs(math.sin(inc)) < 1e-15:
        r[2] = v[2] = 0.0
    q, x = attempt(lambda: [float(t) for t in E.rv2coe(mu, r, v)])
    if x is not None or not all(map(math.isfinite, q)):
        return bad(f"rv2coe of the state of {a} gives {q} {x!r}")
    r2, v2 = _state(mu, *q)
    w = max(np.linalg.norm(r2 - r) / np.linalg.norm(r), np.linalg.norm(v2 - v) / np.linalg.norm(v))
    if not w < 1e-6:
        return bad(f"rv2coe of the state of {a} gives {q}, another state (relative difference {w:.3g})")
    if not (0 <= q[2] <= PI and 0 <= q[3] < 2 * PI + 1e-12 and 0 <= q[4] < 2 * PI + 1e-12 and -PI <= q[5] < PI + 1e-12):
        return bad(f"rv2coe gives angles out of range: {q}")
    return OK


def stumpff_exact(n, psi):
    """c_n(psi) by its power series with plenty of digits."""
    from decimal import Decimal, getcontext
    getcontext().prec = 60 + int(2 * math.sqrt(abs(psi)))
    p, t, s, k = Decimal(psi), Decimal(1) / math.factorial(n), Decimal(0), 0
    while abs(t) > Decimal(10) ** -(45) or k < 3:
        s += t
        k += 1
        t = -t * p / ((2 * k + n) * (2 * k + n - 1))
        if k > 20000:
            break
    return s


@kind
def k_stumpff(c):
    from decimal import Decimal
    M = _mod(c.get("mod", "utils.stumpff"))
    n = c.get("n0", None)
    n = int(c["fn"][1]) if n is None else n
    f = getattr(M, c["fn"])
    p0 = float(c["psi"])
    if abs(p0) > 1e5:
        return {"bad": False, "detail": "too large"}
    worst = (0, None, None)
    for j in range(-60, 61):
        p = p0 * (1 + j * 1.7e-3)
        r, e = attempt(lambda: float(f(p)))
        if e is not None or not math.isfinite(r):
            return bad(f"{c['fn']}({p!r}) gives {r} {e!r}")
        ref = stumpff_exact(n, p)
        s = math.sqrt(abs(p))
        scale = float(ref) * (1 + s) if p < 0 else (1 + s) / (1 + p) if n > 1 else 1 + s
        w = abs(float(Decimal(r) - ref)) / scale
        if w > worst[0]:
            worst = (w, p, r)
    if worst[0] > c.get("limit", 2e-13):
        return bad(f"{c['fn']}({worst[1]!r}) = {worst[2]!r} is off by {worst[0]:.3g} of its scale")
    return OK


# ------------------------------------------------------------------ benchmark report
def _script():
    import importlib.util
    import os
    p = os.path.join(os.environ.get("LH_REPO", "/repo"), "scripts", "generate_benchmark_report.py")
    sp = importlib.util.spec_from_file_location("report_script", p)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    return m


def _rows(text):
    g = s = head = None
    rows = []
    for ln in text.split("\n"):
        if ln.startswith("#### "):
            s, head = ln[5:].strip(), None
        elif ln.startswith("### "):
            g, s, head = ln[4:].strip(), None, None
        elif ln.startswith("|"):
            cells = [c.strip() for c in ln.strip().strip("|").split("|")]
            if head is None:
                head = cells
            elif not set("".join(cells)) <= set("-: "):
                rows.append((g, s, dict(zip(head, cells))))
    return rows


@kind
def k_report(c):
    mod = _script()
    flat = [b for rep in c["layout"] for b in rep]
    med, mean, iqr = c["medians"], c["means"], c["iqrs"]
    i = 0
    reps = []
    for rep in c["layout"]:
        bs = []
        for g, cs, sv in rep:
            bs.append({"group": g, "params": {"case": dict(cs), "solver": f"<function {sv} at 0x7f>" if sv != "my_solver" else sv},
                       "stats": {"median": med[i], "mean": mean[i], "iqr": iqr[i], "rounds": 1000 + i}})
            i += 1
        reps.append({"benchmarks": bs, "machine_info": {"cpu": {"brand_raw": "CPU"}, "python_version": "3.12", "system": "Linux"}, "commit_info": {"id": "0123456789abcdef"}})
    text, e = attempt(lambda: mod.build_section(reps))
    if e is not None:
        return bad(f"build_section fails: {e!r}")
    rows = _rows(text)
    seen = {}
    for g, s, r in rows:
        seen.setdefault(int(r["Rounds"]) - 1000, []).append((g, s, r))
    n = len(flat)
    if sorted(seen) != list(range(n)) or len(rows) != n:
        return bad(f"{n} benchmarks, rows for {sorted((k, len(v)) for k, v in seen.items())}")
    seen = {k: v[0] for k, v in seen.items()}
    heads, scen, by = {}, {}, {}
    for i, (g, cs, sv) in enumerate(flat):
        gr, sc, r = seen[i]
        if sv not in r["Solver"] or r["Revolutions"] != str(cs["M"]) or r["prograde"] != ("Yes" if cs["is_prograde"] else "No") or r["Path"] != ("low" if cs["is_low_path"] else "high"):
            return bad(f"row {r} for benchmark {(g, cs, sv)}")
        heads.setdefault(gr, set()).add(g)
        scen.setdefault((g, cs["name"]), set()).add(sc)
        by.setdefault((g, tuple(cs.values())), []).append(i)
    if any(len(v) != 1 for v in heads.values()) or len(heads) != len({b[0] for b in flat}) or any(len(v) != 1 or None in v for v in scen.values()):
        return bad(f"groups {heads}, scenarios {scen}")
    for k, ids in by.items():
        rk = {i: int(seen[i][2]["Rank"]) for i in ids}
        if sorted(rk.values()) != list(range(1, len(ids) + 1)):
            return bad(f"ranks {rk} in case {k}")
        slow = max(med[i] for i in ids)
        for i in ids:
            for j in ids:
                if rk[i] < rk[j] and med[i] > med[j]:
                    return bad(f"case {k}: rank {rk[i]} has median {med[i]}, rank {rk[j]} has {med[j]}")
            r = seen[i][2]
            w = slow / med[i]
            if abs(float(r["Speedup"].rstrip("x")) - w) > 0.0501 + 1e-9 * w:
                return bad(f"case {k}: speedup {r['Speedup']} for median {med[i]} where the slowest takes {slow}")
            for col, v in (("Median (µs)", med[i]), ("Mean (µs)", mean[i])):
                if abs(float(r[col]) - v * 1e6) > 0.0501 + 1e-9 * v * 1e6:
                    return bad(f"case {k}: {col} {r[col]} for {v} s")
    return OK


@kind
def k_readme(c):
    import pathlib
    import tempfile
    mod = _script()
    S, E = "<!-- performance-comparison:start -->", "<!-- performance-comparison:end -->"
    base = dict(before="# Title\n\nText.\n\n## Performance comparison\n\n", old="old", after="\n## After\n\nMore.\n", title1="## Performance comparison", sec1="one", title2="## Performance comparison", sec2="two\n\nlines")
    sets = [base, {**base, "sec1": "CPU \\1 \\g<0> C:\\new"}, {**base, "old": "a\n\nb\n"}, {**base, "after": ""}]
    t = dict(c.get("texts") or {})
    # a model's text that contains a marker is outside the claim
    t = {k: v for k, v in t.items() if "<!--" not in v}
    sets.insert(0, {**base, **t})
    mk = lambda s: f"{S}\n\n{s}\n{E}\n"
    with tempfile.TemporaryDirectory() as d:
        p = pathlib.Path(d) / "README.md"
        for t in sets:
            for shape in ("none", "pair", "pair, no newline", "pair, tight"):
                b = t["before"]
                txt = {"none": b, "pair": b + mk(t["old"]) + t["after"], "pair, no newline": b + mk(t["old"]).rstrip("\n"), "pair, tight": b + S + t["old"] + E + " " + t["after"]}[shape]
                with p.open("w", encoding="utf-8", newline="") as f:
                    f.write(txt)
                for k in "1211":
                    _, e = attempt(lambda: mod.update_readme(p, t["title" + k] + "\n\n" + mk(t["sec" + k])))
                    if e is not None:
                        return bad(f"update_readme fails on section text {t['sec' + k]!r}: {e!r}")
                    got = p.read_bytes().decode()
                    want = {"none": b.rstrip() + "\n\n" + t["title1"] + "\n\n" + mk(t["sec" + k]), "pair": b + mk(t["sec" + k]) + t["after"],
                            "pair, no newline": b + mk(t["sec" + k]), "pair, tight": b + mk(t["sec" + k]) + " " + t["after"]}[shape]
                    if got.replace("\r\n", "\n") != want.replace("\r\n", "\n").replace("\r", "\n"):
                        return bad(f"README {txt!r} becomes {got!r}, expected {want!r}")
    return OK


# ------------------------------------------------------------------ calling convention
@kind
def k_signature(c):
    import inspect
    f = getattr(L, c["solver"], None)
    if f is None:
        return bad(f"{c['solver']} is gone")
    p = inspect.signature(f).parameters
    n = c["names"]
    if list(p)[:len(n)] != n or any(p[k].default != v for k, v in c["defaults"].items()):
        return bad(f"{c['solver']}{inspect.signature(f)}: not the documented arguments {n}")
    for k, q in list(p.items())[4:]:
        if q.default is inspect.Parameter.empty and q.kind not in (q.VAR_KEYWORD, q.VAR_POSITIONAL):
            return bad(f"{c['solver']}: argument {k} has no default")
    return OK


@kind
def k_fullout(c):
    """Same call with and without full_output."""
    import numbers
    if not sane(c):
        return {"bad": False, "detail": "ill conditioned"}
    s = c["solver"]
    plain = {k: v for k, v in c.items() if k not in ("maxiter", "atol", "rtol")}
    for d, over in ((c, {}), (plain, {}), (plain, dict(TIGHT)), (plain, dict(atol=1.0, rtol=1.0))):
        a, e = attempt(lambda: call(d, full_output=False, **over))
        b, e2 = attempt(lambda: call(d, full_output=True, **over))
        if "timeout" in (e, e2):
            continue
        if (e is None) != (e2 is None) or type(e) is not type(e2):
            return bad(f"{s}: without full_output {e!r}, with it {e2!r}")
        if e is not None:
            continue
        if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != 2 or len(b) != 4:
            return bad(f"{s} returns {len(a)} values, {len(b)} with full_output")
        for u, v in zip(a, b[:2]):
            if np.shape(u) != (3,) or not np.array_equal(u, v, equal_nan=True):
                return bad(f"{s}: velocities {u} without, {v} with full_output")
        n, t = b[2], b[3]
        if isinstance(n, bool) or not isinstance(n, numbers.Integral) or n < 0:
            return bad(f"{s}: iteration count {n!r}")
        if not isinstance(t, numbers.Real) or not t >= 0 or not math.isfinite(t):
            return bad(f"{s}: time per iteration {t!r}")
    return OK


# ------------------------------------------------------------------ purity
def _same(a, b):
    return a[1] is None and b[1] is None and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a[0][:2], b[0][:2])) or \
        a[1] is not None and b[1] is not None and (type(a[1]) is type(b[1]))


@kind
def k_pure(c):
    """A call leaves its inputs alone and gives the same before and after other calls."""
    f = getattr(L, c["solver"])
    kw = dict(M=c.get("M", 0), is_prograde=bool(c.get("pro", True)), is_low_path=bool(c.get("low", True)))

    def run(mu, r1, r2, tof, **k):
        a, b = vec(r1), vec(r2)
        a0, b0 = a.copy(), b.copy()
        r = attempt(lambda: f(mu, a, b, tof, **{**kw, **k}))
        if not np.array_equal(a, a0) or not np.array_equal(b, b0):
            raise Mod(f"{c['solver']} modifies its inputs: {a0} {b0} become {a} {b}")
        if r[1] is None:
            vs = [v for v in r[0][:2] if isinstance(v, np.ndarray)]
            if any(np.shares_memory(v, w) for v in vs for w in (a, b)):
                raise Mod(f"{c['solver']} returns a view of its inputs")
            if len(vs) == 2 and np.shares_memory(*vs):
                raise Mod(f"{c['solver']} returns twice the same memory")
        for v, w in given:
            if not np.array_equal(v, w, equal_nan=True):
                raise Mod(f"{c['solver']}: velocities {w} returned earlier become {v} by the call {mu}, {r1}, {r2}, {tof} {k}")
        if r[1] is None:
            r = (tuple(np.array(v) for v in r[0][:2]), None)
            given.extend(zip(vs, r[0]))
            del given[:-40]
        return r
    A = (c["mu"], c["r1"], c["r2"], c["tof"])
    given = []
    mu, r1, r2, tof = A
    r1n, r2n = vec(r1), vec(r2)
    try:
        first = run(*A)
        if first[1] == "timeout":
            return OK
        others = [((mu, r1, r2, tof), dict(full_output=True)), ((mu, r1, r2, tof * 1.37), {}), ((mu * 1.21, r1, r2, tof), {}), ((mu, r1n * 1.13, r2, tof), {}),
                  ((mu, r1, r2n * 0.9, tof), {}), ((mu, r2, r1, tof), {}), ((mu, -r1n, r2, tof), {}), ((mu, r1, r2, tof), dict(is_prograde=not kw["is_prograde"])),
                  ((mu, r1, r2, tof), dict(is_low_path=not kw["is_low_path"])), ((mu, r1, r2, tof), dict(maxiter=9)), ((mu, r1, r2, tof), dict(atol=1e-3, rtol=1e-3)),
                  ((mu, r1, r2, tof * 8), dict(M=1 if kw["M"] == 0 else 0)), ((-mu, r1, r2, tof), {}), ((mu, r1n[[1, 0, 2]], r2n[[1, 0, 2]], tof), {}),
                  ((mu, r1n * [1, 1, -1], r2n * [1, 1, -1], tof), {})]
        alone = []
        for o, k in others:
            x = run(*o, **k)
            alone.append(x)
            again = run(*A)
            if "timeout" in (x[1], again[1]):
                continue
            if not _same(first, again):
                return bad(f"{c['solver']}{A}: {first} at first, {again} after the call {o} {k}")
        # the same calls in the opposite order
        for (o, k), x in list(zip(others, alone))[::-1]:
            y = run(*o, **k)
            if "timeout" in (x[1], y[1]):
                continue
            if not _same(x, y):
                return bad(f"{c['solver']}{o} {k}: {x} at first, {y} after other calls")
        # integer positions and repeated calls
        for i in range(12):
            again = run(*A)
            if again[1] != "timeout" and not _same(first, again):
                return bad(f"{c['solver']}{A}: another result at repetition {i}")
    except Mod as e:
        return bad(str(e))
    return OK


class Mod(Exception):
    pass


# ------------------------------------------------------------------ convergence
@kind
def k_converge(c):
    """Whatever the iteration limit, what is returned with tight tolerances solves the problem."""
    if not sane(c):
        return {"bad": False, "detail": "ill conditioned"}
    r1, r2, mu, tof, M = vec(c["r1"]), vec(c["r2"]), c["mu"], c["tof"], c.get("M", 0)
    plain = {k: v for k, v in c.items() if k not in ("maxiter", "atol", "rtol")}
    for mi in sorted({1, 2, 3, 4, 5, 6, 7, 9, 12, 16, 25, 40, 80, int(c.get("maxiter") or 1)}):
        for tol in (dict(atol=1e-10, rtol=1e-11), dict(atol=1e-15, rtol=1e-15)):
            r, e = attempt(lambda: call(plain, maxiter=mi, **tol))
            if e is not None:
                if e != "timeout" and not isinstance(e, (ValueError, RuntimeError, AssertionError)):
                    return bad(f"{c['solver']} maxiter={mi}: {type(e).__name__} {e}")
                continue
            try:
                rr, vv, dE = O.propagate(mu, r1, vec(r[0]), tof)
            except ArithmeticError:
                continue
            err = np.linalg.norm(rr - r2) / (np.linalg.norm(r2) + 0.1 * np.linalg.norm(vv) * tof / (1 + 20 * M))
            if not err < 1e-4:
                return bad(f"{c['solver']} with maxiter={mi}, {tol}: returns velocities that lead to {rr} instead of {r2} (relative {err:.3g})")
    return OK
