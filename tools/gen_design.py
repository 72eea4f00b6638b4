#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_rows.txt and seeded/*/meta.json."""
import json, glob, os
rows = {}
for l in open("/verif/tools/design_rows.txt"):
    if "|" in l:
        i, a, b = [x.strip() for x in l.split("|")][:3]
        rows[i] = (a, b)
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
t = []
for p in props:
    a, b = rows.get(p["id"], ("planned: see MANIFEST technique", "-"))
    t.append(f"| {p['id']} {p['title']} | {a} | {b} |")
res = {}
if os.path.exists("/verif/tools/seeded_results.txt"):
    for l in open("/verif/tools/seeded_results.txt"):
        f = l.split(None, 1)
        if len(f) == 2: res[f[0]] = f[1].strip()
s = []
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    s.append(f"* `{n}` ({d['property']}): {d['what_it_breaks']} Needs: {d['needs']} -- {res.get(n,'not run')}")
h = open("/verif/tools/design_head.md").read().replace("@@TABLE@@", "\n".join(t)).replace("@@SEEDED@@", "\n".join(s) or "(none yet)")
open("/verif/DESIGN.md", "w").write(h)
