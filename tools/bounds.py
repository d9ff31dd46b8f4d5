#!/usr/bin/env python3
"""bounds.py [EVIDENCE_DIR]: writes BOUNDS.md from the evidence of a quick run of every check."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
out = ["# What the quick checks explored", "",
       "Generated by `tools/bounds.py` from the evidence files of one quick run on the unchanged tree. Every space is",
       "enumerated completely; the thorough commands use the larger bounds the code gives with `r.Pick(quick, thorough)`.", ""]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    f = f"{E}/{p['id']}.json"
    if not os.path.exists(f):
        sys.exit("no evidence for " + p["id"])
    d = json.load(open(f))
    c = d["coverage"]
    if d["violations"] or not c["exhaustive"]:
        sys.exit(f"{p['id']}: not the evidence of a complete quiet run")
    out += [f"## {p['id']} {p['title']}", "", f"{c['rule']}. States {c['states']}, transitions {c['transitions']}, traces run on the code {c['traces_validated_against_impl']}.", "",
            "| space | bound | executions |", "|---|---|---|"]
    for s in c.get("spaces", []):
        out.append(f"| {s['name']} | {s['bound'].replace('|', '/')} | {s['executions']} |")
    out.append("")
open(V + "/BOUNDS.md", "w").write("\n".join(out))
