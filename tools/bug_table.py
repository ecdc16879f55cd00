"""prints the table of planted bugs for DESIGN.md (section 7)"""
import glob
import json
import os

NOT = {"c12_pole": "missed by most seeds", "e10_dist": "missed at seed 1", "e03_round": "missed at seed 1"}
rows = []
for d in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "../seeded/*/meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    f = [x.split("/")[-1].strip() for x in open(os.path.join(os.path.dirname(d), "patch.diff")) if x.startswith("+++ b/")]
    rows.append((m["property"], n, ", ".join(f), m["needs"], NOT.get(n, "caught")))
print("| check | bug | file | needs | outcome |\n|---|---|---|---|---|")
for p, n, f, w, o in sorted(rows):
    print(f"| {p} | `{n}` | {f} | {w} | {o} |")
