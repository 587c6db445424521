"""Runs the checks against the planted bugs in scratch copies: runseeds.py [-a] [ID...]; -a: every claimed check, not only the bug's own."""
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
for i in ids:
    d = f"{ROOT}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    w = f"/tmp/seedrun/{i}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w} && cd {w} && git init -q && git apply {d}/patch.diff", shell=True, check=True)
    props = [prop]
    if "-a" in sys.argv:
        props = [c["property"] for c in json.load(open(ROOT + "/MANIFEST.json"))["checks"]]
    for p in props:
        t = time.time()
        ev = f"{ROOT}/evidence/{p}.json"
        r = subprocess.run(["python3", "check.py", p], cwd=ROOT, env={**os.environ, "LH_REPO": w, "VERIF_SEED": "1", "VERIF_TIER": "quick", "LH_EVIDENCE": w + "/ev"}, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{i:28s} {p} rc={r.returncode} {len(v)} violations {time.time()-t:.0f}s", "" if r.returncode in (0, 1) else r.stdout[-300:] + r.stderr[-300:], flush=True)
        if p == prop:
            J = ROOT + "/tools/detection.json"
            D = json.load(open(J)) if os.path.exists(J) else {}
            D[i] = f"caught ({p}, {time.time()-t:.0f} s)" if r.returncode == 1 and v else f"missed by {p}" if r.returncode == 0 else f"{p} gave no answer"
            json.dump(D, open(J, "w"), indent=0, sort_keys=True)
    shutil.rmtree(w, ignore_errors=True)
