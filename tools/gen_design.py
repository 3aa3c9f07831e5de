#!/usr/bin/env python3
"""Write DESIGN.md: tools/design_head.md, the table of checks, tools/design_tail.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "methods.py")).read())
exec(open(os.path.join(V, "tools", "details.py")).read())
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    gen, oracle, why = DETAILS[i]
    out.append(f"### {i} {p['title']}\n\n- Method: {METHODS[i][0]}.\n- Generated: {gen}\n- Oracle: {oracle}\n- Beyond the tests: {why}\n- Assurance: {METHODS[i][1]}\n\n")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
seeded = os.path.join(V, "seeded")
rows = []
for d in sorted(os.listdir(seeded)) if os.path.isdir(seeded) else []:
    m = os.path.join(seeded, d, "meta.json")
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {CAUGHT.get(d, '?')} |\n")
out.append("\n## Planted changes and the checks that catch them\n\nEach is in seeded/<id>/. The last column lists the quick checks that reported a VIOLATION with VERIF_SEED=1.\n\n| id | property | what it breaks | what it needs | caught by |\n|---|---|---|---|---|\n" + "".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
