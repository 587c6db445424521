"""Writes section 4 of DESIGN.md from tools/detection.json ({seed: "caught by C.." | "missed: why"})."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(R + "/tools/detection.json"))
rows = ["## 4. Planted bugs", "Each in `seeded/<id>/`, confirmed with the existing tests and its demonstration; the check of its own property was run against it (quick tier).", "", "| bug | needs | result |", "|---|---|---|"]
for s in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{s}/meta.json"))
    rows.append(f"| {s} | {m['needs']} | {d.get(s, 'not run')} |")
p = R + "/DESIGN.md"
t = open(p).read()
new = "\n".join(rows) + "\n"
t = t.replace("@@SEEDS@@", new) if "@@SEEDS@@" in t else re.sub(r"## 4\. Planted bugs\n.*?\n(?=## 5)", lambda m: new + "\n", t, flags=re.S)
open(p, "w").write(t)
