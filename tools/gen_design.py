#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md (sub-checks with their case counts, planted bugs)."""
import json, re, glob, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
src = "".join(open(f).read() for f in sorted(glob.glob(R + "/harness/src/*.rs") + glob.glob(R + "/snapharness/src/*.rs")))
rows = []
for m in re.finditer(r'id: "(\w+)",\s+subs: vec!\[(.*?)\],\s+rule', src, re.S):
    subs = re.findall(r'Sub::(\w+)\("(\w+)", (\d+), (\d+)', m[2])
    rows.append((m[1], ", ".join(f"`{n}` {int(q):,} / {int(t):,}" for _, n, q, t in subs)))
rows.sort()
tab = "| id | sub-check: cases quick / thorough |\n|----|----|\n" + "\n".join(f"| {i} | {s} |" for i, s in rows)
bugs = "| planted change | property | needs | breaks | caught by |\n|----|----|----|----|----|\n"
hits = json.load(open(R + "/tools/seeded_hits.json")) if os.path.exists(R + "/tools/seeded_hits.json") else {}
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    bugs += f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {hits.get(i, m['property'])} |\n"
d = open(R + "/DESIGN.md").read()
for k, t in (("SUBS", tab), ("BUGS", bugs.strip())):
    d = re.sub(rf"(<!-- {k} -->\n).*?(<!-- /{k} -->)", lambda x: x[1] + t + "\n" + x[2], d, flags=re.S)
open(R + "/DESIGN.md", "w").write(d)
