"""Writes MANIFEST.json: claimed properties are those with a module in lhsym/props, the rest are not applicable (yet)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    n = NOTES.get(i)
    if os.path.exists(os.path.join(ROOT, "lhsym", "props", i.lower() + ".py")) and n and "reason" not in n:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "technique": n["technique"],
            "level": "other",
            "level_note": n["note"],
        })
    else:
        na.append({"property": i, "reason": (n or {}).get("reason", "the solver-based check for this property is not finished")})
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check executes the sources of /repo symbolically with lhsym (pure Python, z3 from /opt/veriftools/pyvenv) and replays "
             "candidates with /opt/venv/bin/python. No hooks in /repo are used.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
