"""C24: the benchmark report."""
import itertools
import os
import re
import numpy as np
import z3
from .common import TRUST
from ..harness import Sym
from ..engine import compare
from ..alg import V
from .. import engine as EN, interp as I

LEVEL = "other"
METHOD = ("The report script is executed symbolically on reports whose medians, means and spreads are arbitrary positive numbers: every comparison "
          "made while sorting is a branch, formatted numbers are placeholders read back from the generated table, and ranks and speedups of every "
          "row must follow from the path condition (z3).  The README update is executed on texts made of the markers and arbitrary strings; old "
          "text and sections are unknown strings, and the result must equal the expected concatenation for all of them (z3 strings), twice in a row.")
BOUNDS = ("up to 4 solvers per case and 5 benchmarks per report set, several layouts of groups, cases, scenarios and files; medians arbitrary positive "
          "reals, each solver at most once per case; README texts with no marker or one pair of markers, arbitrary strings around them")
ASSUMPTIONS = TRUST + ["each solver is measured once per case", "str.rstrip and the template expansion of re.sub are unknown functions constrained by their documentation"]

SCRIPT = "scripts/generate_benchmark_report.py"
START, END = "<!-- performance-comparison:start -->", "<!-- performance-comparison:end -->"


def case(name, M=0, pro=True, low=True):
    return dict(name=name, M=M, is_prograde=pro, is_low_path=low)


def fmt(s):
    return f"<function {s} at 0x7f12{sum(map(ord, s)) % 4096:04x}>"


# layouts: list of reports, each a list of (group, case, solver)
A = case("battin-book")
LAYOUTS = {
    "one case": [[("zero-rev-nominal", A, s) for s in ("izzo2015", "gauss1809", "arora2013", "der2011")]],
    "revolutions": [[("multi-rev-hard", case("m1-prograde-high", 1, True, False), "izzo2015"), ("multi-rev-hard", case("m1-prograde-high", 1, True, False), "der2011"),
                     ("multi-rev-hard", case("m1-prograde-high", 2, True, False), "izzo2015"), ("multi-rev-hard", case("m1-prograde-high", 2, True, False), "der2011")]],
    "senses": [[("robust-zero-rev", case("x-y", 0, p, True), s) for p in (True, False) for s in ("izzo2015", "der2011")]],
    "paths": [[("multi-rev-m1", case("der", 1, True, l), s) for s in ("izzo2015", "der2011") for l in (False, True)]],
    "same scenario": [[("zero-rev-hyperbolic", case("gmat-prograde"), "izzo2015"), ("zero-rev-hyperbolic", case("gmat-retrograde", 0, False), "izzo2015"),
                       ("zero-rev-hyperbolic", case("gmat-prograde"), "der2011"), ("zero-rev-hyperbolic", case("gmat-retrograde", 0, False), "der2011")]],
    "two groups": [[("zero-rev-nominal", A, "izzo2015"), ("zero-rev-general", A, "izzo2015")], [("zero-rev-nominal", A, "der2011"), ("zero-rev-general", A, "vallado2013")]],
    "unknown names": [[("new-group", case("some-case"), "my_solver")], [("new-group", case("other-case"), "izzo2015"), ("new-group", case("some-case"), "izzo2015")]],
    "same titles": [[("zero-rev-nominal", case("der-article-ii-prograde-high"), "izzo2015"), ("zero-rev-nominal", case("prograde-high"), "izzo2015"),
                     ("zero-rev-nominal", case("der-article-ii-prograde-high"), "der2011"), ("zero-rev-nominal", case("prograde-high"), "der2011")]],
}


def build(layout, vals):
    """pytest-benchmark reports of a layout; vals[i] = (median, mean, iqr)."""
    n = itertools.count()
    out = []
    for k, rep in enumerate(layout):
        bs = []
        for g, c, s in rep:
            i = next(n)
            m, a, q = vals[i]
            bs.append({"group": g, "params": {"case": dict(c), "solver": fmt(s) if s != "my_solver" else s},
                       "stats": {"median": m, "mean": a, "iqr": q, "rounds": 1000 + i}})
        out.append({"benchmarks": bs, "machine_info": {"cpu": {"brand_raw": "CPU"}, "python_version": "3.12", "system": "Linux"}, "commit_info": {"id": f"{k}123456789abcdef"}})
    return out


TOK = re.compile("\ue000(\\d+)\ue001")


def parse(text):
    """Rows of the tables: (group heading, scenario heading, {column: cell})."""
    g = s = head = None
    rows = []
    for ln in text.split("\n"):
        if ln.startswith("#### "):
            s, head = ln[5:].strip(), None
        elif ln.startswith("### "):
            g, s, head = ln[4:].strip(), None, None
        elif ln.startswith("|"):
            cells = [c.strip() for c in ln.strip().strip("|").split("|")]
            if head is None:
                head = cells
            elif not set("".join(cells)) <= set("-: "):
                rows.append((g, s, dict(zip(head, cells))))
    return rows


def load(S, R):
    path = os.path.join(I.REPO, SCRIPT)
    if not os.path.exists(path):
        R.note("the script is gone")
        return None
    S.ld.shims["re"] = re_shim()
    return S.ld.file(path, "report_script")


def ranks(R, budget, tier, layout):
    S = Sym(R, budget=budget, max_paths=3000, load=False)
    x, eng = S.x, S.eng
    mod = load(S, R)
    if mod is None:
        return
    lay = LAYOUTS[layout]
    flat = [b for rep in lay for b in rep]
    n = len(flat)
    med = [x.var(f"median{i}", 0) for i in range(n)]
    mean = [x.var(f"mean{i}", 0) for i in range(n)]
    iqr = [x.var(f"iqr{i}", 0) for i in range(n)]
    vals = list(zip(med, mean, iqr))
    names = dict(medians=med, means=mean, iqrs=iqr)
    toks = []
    S.fallback(names, kind="report", layout=lay)

    def tok(self, spec=""):
        toks.append((self, spec))
        return f"\ue000{len(toks) - 1}\ue001"
    V.__format__ = tok

    def fn():
        toks.clear()
        return mod.build_section(build(lay, vals)), list(toks)

    def cell(t, tk):
        m = TOK.search(t)
        if m:
            return tk[int(m.group(1))][0]
        t = t.rstrip("x").strip("`")
        try:
            return x.const(str(t)) if re.fullmatch(r"-?[\d.]+", t) else None
        except Exception:
            return None

    def on_path(p):
        R.reached += 1
        S.declare(names, kind="report", layout=lay, ob="report")
        und = []
        t_ = lambda z: und.append(1) if z is not True else None

        def fact(name, ok):
            R.ob(name, True if ok else None)
            t_(bool(ok))
        if p.outcome[0] != "return":
            R.ob("makes a section", None)
            und = [1]
        else:
            text, tk = p.outcome[1]
            rows = parse(text)
            seen = {}
            for g, s, c in rows:
                r = c.get("Rounds", "")
                if r.isdigit():
                    seen.setdefault(int(r) - 1000, []).append((g, s, c))
            fact("every benchmark appears exactly once", sorted(seen) == list(range(n)) and all(len(v) == 1 for v in seen.values()) and len(rows) == n)
            if not und:
                seen = {k: v[0] for k, v in seen.items()}
                heads = {}
                for i, (g, c, sv) in enumerate(flat):
                    row = seen[i]
                    fact("row names its solver, revolutions, sense and path", sv in row[2].get("Solver", "") and row[2].get("Revolutions") == str(c["M"])
                         and row[2].get("prograde") == ("Yes" if c["is_prograde"] else "No") and row[2].get("Path") == ("low" if c["is_low_path"] else "high"))
                    heads.setdefault(row[0], set()).add(g)
                fact("groups have their own headings", all(len(v) == 1 for v in heads.values()) and len(heads) == len({b[0] for b in flat}))
                scen = {}
                for i, (g, c, sv) in enumerate(flat):
                    scen.setdefault((g, c["name"]), set()).add(seen[i][1])
                fact("a case stays in one scenario", all(len(v) == 1 and None not in v for v in scen.values()))
                by = {}
                for i, (g, c, sv) in enumerate(flat):
                    by.setdefault((g, tuple(c.values())), []).append(i)
                for k, ids in by.items():
                    rk = {}
                    for i in ids:
                        v = cell(seen[i][2].get("Rank", ""), tk)
                        rk[i] = int(v.c) if isinstance(v, V) and not v.f else None
                    fact("ranks are 1..n", sorted(map(str, rk.values())) == sorted(str(j + 1) for j in range(len(ids))))
                    if und:
                        break
                    for i, j in itertools.permutations(ids, 2):
                        if rk[i] < rk[j]:
                            t_(S.holds("a better rank has no larger median", compare(med[i], med[j], "<=")))
                    for i in ids:
                        sp = cell(seen[i][2].get("Speedup", ""), tk)
                        if sp is None:
                            fact("speedup", False)
                            continue
                        w = sp * med[i]
                        fact("speedup is relative to a solver of the case", any(eng.is_zero(w - med[j]) for j in ids))
                        for j in ids:
                            t_(S.holds("speedup is relative to the slowest", compare(w, med[j], ">=")))
                        md = cell(seen[i][2].get("Median (µs)", ""), tk)
                        mn = cell(seen[i][2].get("Mean (µs)", ""), tk)
                        t_(S.zero("median in microseconds", md - med[i] * 1000000) if md is not None else None)
                        t_(S.zero("mean in microseconds", mn - mean[i] * 1000000) if mn is not None else None)
        R.sample({"layout": layout, "path": [str(c[0])[:70] + c[1] for c in p.cons][:5]})
        if und:
            for c in S.case(names, n=3, kind="report", layout=lay, ob="report"):
                R.cand(c)
    try:
        S.explore(fn, on_path)
    finally:
        del V.__format__


# ------------------------------------------------------------------ README
Z = z3.StringVal
tmpl = z3.Function("template", z3.StringSort(), z3.StringSort())
rst = z3.Function("rstrip", z3.StringSort(), z3.StringSort())
lst = z3.Function("lstrip", z3.StringSort(), z3.StringSort())
BASE = 0xE100


class Atoms:
    """Unknown strings stand in a text as private characters."""

    def __init__(self):
        self.terms = []
        self.ix = {}

    def new(self, term):
        k = term.sexpr()
        if k not in self.ix:
            self.ix[k] = len(self.terms)
            self.terms.append(term)
        return chr(BASE + self.ix[k])

    def term(self, ch):
        return self.terms[ord(ch) - BASE]

    def is_atom(self, ch):
        return BASE <= ord(ch) < BASE + len(self.terms)

    def z(self, s):
        parts, lit = [], ""
        for ch in str(s):
            if self.is_atom(ch):
                if lit:
                    parts.append(Z(lit))
                parts.append(self.term(ch))
                lit = ""
            else:
                lit += ch
        if lit or not parts:
            parts.append(Z(lit))
        return parts[0] if len(parts) == 1 else z3.Concat(*parts)


AT = None


class SS(str):
    """Text with atoms: the operations that look inside an atom are made explicit."""

    def rstrip(self, chars=None):
        if chars is not None:
            raise I.Unsupported("rstrip of some characters")
        s = str(self)
        t = s.rstrip()
        if t and AT.is_atom(t[-1]):
            return SS(t[:-1] + AT.new(rst(AT.term(t[-1]))))
        return SS(t)

    def lstrip(self, chars=None):
        if chars is not None:
            raise I.Unsupported("lstrip of some characters")
        t = str(self).lstrip()
        if t and AT.is_atom(t[0]):
            return SS(AT.new(lst(AT.term(t[0]))) + t[1:])
        return SS(t)

    def strip(self, chars=None):
        return self.rstrip(chars).lstrip(chars)

    def __add__(self, o):
        return SS(str(self) + str(o))

    def __radd__(self, o):
        return SS(str(o) + str(self))

    def split(self, *a, **k):
        if not (a and a[0]) and not k.get("sep"):
            raise I.Unsupported("splitting at white space")
        return [SS(t) for t in str(self).split(*a, **k)]

    def partition(self, s):
        return tuple(SS(t) for t in str(self).partition(s))

    def rpartition(self, s):
        return tuple(SS(t) for t in str(self).rpartition(s))

    def replace(self, *a):
        return SS(str(self).replace(*a))

    def __getitem__(self, k):
        return SS(str(self)[k])

    def splitlines(self, *a, **k):
        raise I.Unsupported("lines of an unknown text")


class Pat:
    def __init__(self, p):
        self.p = p

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self.p, n)
        return f

    def sub(self, repl, string, count=0):
        def r(m):
            if callable(repl):
                return str(repl(m))
            out = ""
            lit = ""
            for ch in str(repl):
                if AT and AT.is_atom(ch):
                    out += m.expand(lit) if lit else ""
                    out += AT.new(tmpl(AT.term(ch)))
                    lit = ""
                else:
                    lit += ch
            return out + (m.expand(lit) if lit else "")
        return SS(self.p.sub(r, str(string), count))

    def subn(self, repl, string, count=0):
        raise I.Unsupported("subn")


def re_shim():
    d = {k: getattr(re, k) for k in ("escape", "DOTALL", "S", "MULTILINE", "M", "IGNORECASE", "I", "search", "match", "fullmatch", "findall", "finditer", "split", "VERBOSE", "X")}
    d["compile"] = lambda p, flags=0: Pat(re.compile(p, flags))
    d["sub"] = lambda p, repl, s, count=0, flags=0: Pat(re.compile(p, flags)).sub(repl, s, count)
    return I.Lazy("re", d)


class File:
    def __init__(self, text):
        self.text = text

    def read_text(self, *a, **k):
        return SS(self.text)

    def write_text(self, text, *a, **k):
        self.text = str(text)

    def open(self, *a, **k):
        raise I.Unsupported("open")


def readme(R, budget, tier, shape):
    global AT
    S = Sym(R, budget=budget, max_paths=50, load=False)
    AT = Atoms()
    mod = load(S, R)
    if mod is None or not hasattr(mod, "update_readme"):
        R.note("update_readme is gone")
        return
    z = {n: z3.String(n) for n in ("before", "old", "after", "title1", "sec1", "title2", "sec2")}
    a = {n: AT.new(t) for n, t in z.items()}
    marked = lambda s: f"{START}\n\n{s}\n{END}\n"
    texts = {
        "none": a["before"],
        "pair": a["before"] + marked(a["old"]) + a["after"],
        "pair, no newline": a["before"] + marked(a["old"]).rstrip("\n"),
        "pair, tight": a["before"] + f"{START}{a['old']}{END}" + " " + a["after"],
    }
    t0 = texts[shape]
    sec = {k: SS(a["title" + k] + "\n\n" + marked(a["sec" + k])) for k in "12"}

    def fn():
        f = File(t0)
        out = []
        for k in "121":
            mod.update_readme(f, sec[k])
            out.append(f.text)
        mod.update_readme(f, sec["1"])
        return out + [f.text]

    def expected(i, k):
        if shape == "none":
            # the first section stays in place of the unmarked text's end, later ones replace what is between the markers
            return z3.Concat(rst(z["before"]), Z("\n\n"), z["title1"], Z("\n\n" + START + "\n\n"), z["sec" + k], Z("\n" + END + "\n"))
        tail = {"pair": [z["after"]], "pair, no newline": [], "pair, tight": [Z(" "), z["after"]]}[shape]
        return z3.Concat(z["before"], Z(START + "\n\n"), z["sec" + k], Z("\n" + END + "\n"), *tail)

    def on_path(p):
        R.reached += 1
        if p.outcome[0] != "return":
            R.ob("updates the README", None)
            R.cand(dict(kind="readme", ob="readme"))
            return
        for i, (t, k) in enumerate(zip(p.outcome[1], "1211")):
            s = z3.Solver()
            s.set("timeout", 8000)
            bs = Z("\\")
            for n, v in z.items():
                s.add(z3.Implies(z3.Not(z3.Contains(v, bs)), tmpl(v) == v))
                s.add(z3.Length(rst(v)) <= z3.Length(v), z3.PrefixOf(rst(v), v))
            s.add(AT.z(t) != expected(i, k))
            import time
            t1 = time.time()
            r = s.check()
            st = S.eng.stats
            st.queries += 1
            st.time += time.time() - t1
            name = "same section again changes nothing" if i == 3 else "only the section is replaced"
            R.ob(name, True if r == z3.unsat else None)
            if r == z3.unsat:
                st.unsat += 1
            else:
                cand = dict(kind="readme", shape=shape, ob="readme")
                if r == z3.sat:
                    st.sat += 1
                    m = s.model()
                    cand["texts"] = {n: m.eval(v, model_completion=True).as_string() for n, v in z.items()}
                R.cand(cand)
        R.sample({"text": shape, "result": [AT.z(t).sexpr()[:200] for t in p.outcome[1]][:2]})
    S.explore(fn, on_path)


def jobs(tier):
    b = 20 if tier == "quick" else 120
    return [dict(name="ranks " + k, fn=ranks, budget=b, args=dict(layout=k)) for k in LAYOUTS] + \
        [dict(name="readme " + k, fn=readme, budget=b, args=dict(shape=k)) for k in ("none", "pair", "pair, no newline", "pair, tight")]
