#!/usr/bin/env python3
"""seeded.py SWEEP_LOG [REFACTORINGS.json]: writes SEEDED.md (which check catches which planted change)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(sys.argv[1]):
    f = l.rstrip("\n").split(" ", 4)
    if len(f) >= 4: res[f[0]] = f
rows, miss = [], []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    r = res.get(i)
    ok = r and r[2] == "caught"
    if not ok: miss.append(i)
    rows.append(f"| {i} | {m['property']} | {'caught, ' + r[3] if ok else '**not caught**'} | {' '.join(m['needs'].split())[:160].replace('|', '/')} |")
out = ["# Planted changes and what catches them", "",
       f"{len(rows)} planted changes, {len(rows) - len(miss)} caught by the quick check of their own property (time includes building).", "",
       "| change | property and check | result | needs |", "|---|---|---|---|"] + rows
out += ["", "# Behaviour-preserving changes", "",
        "Each was applied in two bundles; the quick checks stayed quiet on both (and the repository's tests pass):", ""]
if len(sys.argv) > 2:
    out += [f"* {k}" for k in json.load(open(sys.argv[2]))]
else:
    old = open(V + "/SEEDED.md").read() if os.path.exists(V + "/SEEDED.md") else ""
    out += [l for l in old.split("# Behaviour-preserving changes")[-1].splitlines() if l.startswith("* ")]
open(V + "/SEEDED.md", "w").write("\n".join(out) + "\n")
print(len(rows), "rows; missed:", miss)
