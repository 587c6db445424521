"""Makes and confirms planted bugs from a specification file (a list SEEDS of dicts).

usage: seed.py SPECS.py [ID...]
Each spec: id, property, edits [(file, old, new)], needs, breaks, demo (Python source, exit code 1 on failure).
The change is made in a scratch copy under /tmp; the stable tests and the demonstration are run there.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = """#!/bin/bash
export NUMBA_DISABLE_JIT=1 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 PYTHONPATH="$PWD/src"
exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = '''import sys
import warnings
import numpy as np
warnings.simplefilter("ignore")
import lamberthub as L


def bad(why):
    print("BROKEN:", why)
    sys.exit(1)


'''


def run(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def one(s, quick=False):
    w = f"/tmp/seedwork/{s['id']}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    run(["bash", "-c", f"git -C /repo archive HEAD | tar x -C {w}"], "/")
    run(["git", "init", "-q"], w)
    run(["git", "add", "-A"], w)
    run(["git", "-c", "user.name=a", "-c", "user.email=a@b", "commit", "-qm", "x"], w)
    for f, old, new in s["edits"]:
        p = os.path.join(w, f)
        t = open(p).read()
        if t.count(old) != 1:
            return s["id"], f"edit matches {t.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = run(["git", "diff"], w).stdout
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + s["demo"].strip() + "\n")
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    a = run(["bash", os.path.join(d, "demo.sh")], "/repo", timeout=300)
    b = run(["bash", os.path.join(d, "demo.sh")], w, timeout=300)
    ok = a.returncode == 0 and b.returncode != 0
    msg = f"demo unchanged={a.returncode} patched={b.returncode} {b.stdout.strip()[-150:]} {a.stderr.strip()[-200:] if a.returncode else ''}"
    if not quick:
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or [])
        env = dict(PYTHONPATH=w + "/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", NUMBA_CACHE_DIR=w + "/nc")
        t = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "--continue-on-collection-errors", "tests"]
        i = run(t, w, {**env, "NUMBA_DISABLE_JIT": "1"})
        j = run(t[:-1] + ["-m", "benchmark", "--benchmark-disable", "tests"], w, env)
        k = run(t, w, env)
        tl = [x.stdout.strip().splitlines()[-1] if x.stdout.strip() else x.stderr[-200:] for x in (i, j, k)]
        ok = ok and not any("failed" in x or "error" in x for x in tl)
        msg += " | " + " | ".join(tl)
    shutil.rmtree(w, ignore_errors=True)
    return s["id"], ("OK " if ok else "NOT OK ") + msg


if __name__ == "__main__":
    g = {}
    exec(open(sys.argv[1]).read(), g)
    want = [a for a in sys.argv[2:] if not a.startswith("-")]
    S = [s for s in g["SEEDS"] if not want or s["id"] in want]
    with cf.ThreadPoolExecutor(6) as ex:
        for r in ex.map(lambda s: one(s, "--quick" in sys.argv), S):
            print(*r, flush=True)
