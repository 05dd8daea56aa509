#!/usr/bin/env python3
"""DESIGN.md = DESIGN.head.md + one section per property, from props.py's job lists and tools/design_notes.py"""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.dirname(__file__))
import json, props, design_notes as D
V = os.path.join(os.path.dirname(__file__), "..")
P = {}
for ln in open(V + "/properties.jsonl"):
    d = json.loads(ln)
    P[d["id"]] = d
out = [open(V + "/tools/design_head.md").read().rstrip(), "", "## 5. Property by property", ""]
for pid, d in P.items():
    out += [f"### {pid} {d['title']}", ""]
    if pid in props.NA:
        out += ["Not applicable: " + props.NA[pid] + ".", ""]
        continue
    out += [D.HOW[pid].strip(), ""]
    for tier in ("quick", "thorough"):
        sp = getattr(props, pid)(tier)
        b = []
        for j in sp["jobs"]:
            t = f"{j.entry}: {j.bounds}" if j.bounds else None
            if t and t not in b:
                b.append(t)
        if tier == "quick":
            q = b
            out += [f"- Bounds (quick, {len(sp['jobs'])} jobs): " + ("; ".join(b) or "none") + "."]
        else:
            out += [f"- Bounds (thorough, {len(sp['jobs'])} jobs): " + ("as quick" if b == q else "; ".join(x for x in b if x not in q) + (" (the rest as quick)" if any(x in q for x in b) else "")) + "."]
    if sp.get("assumptions"):
        out += ["- Assumptions: " + "; ".join(sp["assumptions"]) + "."]
    out += [f"- Harness: `harness/{sorted({j.harness for j in sp['jobs']})[0]}`" + ("" if len({j.harness for j in sp['jobs']}) == 1 else " and others") + f". Cost (quick, 8 cores): {D.COST.get(pid, '?')}.", ""]
tbl = ["| change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    tbl.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
out += [open(V + "/tools/design_tail.md").read().rstrip().replace("SEEDTABLE", "\n".join(tbl)), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
