"""Assembles DESIGN.md from tools/design_head.md, tools/design_tail.md and tools/seeded.txt (output of a sweep over seeded/)."""
import json, os, re
T = os.path.dirname(os.path.abspath(__file__))
S = os.path.join(T, "..", "seeded")
rows = {}
for l in open(os.path.join(T, "seeded.txt")) if os.path.exists(os.path.join(T, "seeded.txt")) else []:
    m = re.match(r"(CAUGHT|MISSED)( rc=\d+)? (\S+) (\d+) s \|(.*)\| others: (\[.*?\])", l)
    if m:
        rows[m[3]] = (m[1].lower(), m[6])
out = ["| change | what it breaks | own check | also |", "|---|---|---|---|"]
for i in sorted(os.listdir(S)):
    meta = json.load(open(os.path.join(S, i, "meta.json")))
    r = rows.get(i, ("?", "[]"))
    out.append(f"| {i} | {meta['what_it_breaks'].replace('|', '/')} | {r[0]} | {', '.join(re.findall('C[0-9]+', r[1]))} |")
open(os.path.join(T, "..", "DESIGN.md"), "w").write(open(os.path.join(T, "design_head.md")).read() + open(os.path.join(T, "design_tail.md")).read() + "\n".join(out) + "\n")
