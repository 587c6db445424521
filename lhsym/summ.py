"""Which functions may be left out of the symbolic execution, and what their results look like.

A function that iterates (or calls one that does) can be replaced by an arbitrary result of the same shape: every behaviour of
the real function is among those of the replacement, so what is shown with it holds for the real code.
"""
import ast
import json
import os
import subprocess

from .run import PY, REPO, ROOT

FINDERS = {"brentq", "brenth", "ridder", "bisect", "toms748", "newton", "root_scalar", "minimize_scalar", "minimize", "fsolve", "root",
           "fminbound", "linspace"}


def iterating():
    """Module-level functions of the package that loop, directly or through what they call (by name)."""
    fns = {}
    base = os.path.join(REPO, "src")
    for d, _, fs in os.walk(os.path.join(base, "lamberthub")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            path = os.path.join(d, f)
            mod = os.path.relpath(path, base)[:-3].replace(os.sep, ".")
            mod = mod[:-9] if mod.endswith(".__init__") else mod
            try:
                tree = ast.parse(open(path).read())
            except SyntaxError:
                continue
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    loop, calls = False, set()
                    for t in ast.walk(n):
                        if isinstance(t, (ast.For, ast.While)):
                            loop = True
                        if isinstance(t, ast.Call):
                            c = t.func.id if isinstance(t.func, ast.Name) else t.func.attr if isinstance(t.func, ast.Attribute) else None
                            if c:
                                calls.add(c)
                                loop = loop or c in FINDERS
                        elif isinstance(t, ast.Name) and isinstance(t.ctx, ast.Load):
                            calls.add(t.id)
                    fns[mod + "." + n.name] = [loop, calls]
    names = {}
    for q in fns:
        names.setdefault(q.rpartition(".")[2], []).append(q)
    more = True
    while more:
        more = False
        for q, d in fns.items():
            if not d[0] and any(fns[r][0] for c in d[1] for r in names.get(c, ())):
                d[0] = more = True
    return {q for q, d in fns.items() if d[0]}


def shapes(solvers):
    env = dict(os.environ, NUMBA_DISABLE_JIT="1", PYTHONDONTWRITEBYTECODE="1", LH_REPO=REPO)

    def one(s):
        try:
            o = subprocess.run([PY, os.path.join(ROOT, "replay", "shapes.py"), s], capture_output=True, text=True, env=env, timeout=120, cwd="/").stdout
            return json.loads(o).get(s, {})
        except (subprocess.TimeoutExpired, ValueError):
            return {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        return dict(zip(solvers, ex.map(one, solvers)))


def good(s):
    return s[0] in "fi" or s[0] == "c" or s[0] == "t" and all(good(t) or t[0] == "b" for t in s[1]) or s[0] == "l" and s[2] is not None and good(s[2]) or s[0] == "a" and s[1] in "fc"


def tables(solvers):
    """{solver: {M: {function: shape}}} for the functions that can be left out."""
    from .props.common import SOLVERS
    it = iterating()
    out = {}
    for s, ms in shapes(solvers).items():
        out[s] = {}
        for M, d in ms.items():
            t = out[s][int(M)] = {}
            for q, sh in d.items():
                n = q.rpartition(".")[2]
                if n in SOLVERS and n != s:
                    # another solver: decided for itself by its own check, assumed here
                    t[q] = ["lambert"]
                elif q in it and good(sh) and n != s:
                    t[q] = sh
    return out
