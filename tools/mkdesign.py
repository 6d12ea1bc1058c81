#!/usr/bin/env python3
"""Writes DESIGN.md: head, one section per property (from the modules in props/, the list of fixed defects,
the seeded changes), tail."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
fixed = json.load(open(f"{ROOT}/known_findings.json"))["fixed"]
seeded = {}
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    seeded.setdefault(m["property"], []).append((d, m))
out = [open(f"{ROOT}/tools/design/head.md").read().rstrip(), "\n## Properties\n",
       "All are claimed at level `model_checking`; none is not applicable. Quick runs take 10 to 60 s each, thorough ones minutes.\n"]
for p in props:
    i = p["id"]
    src = open(f"{ROOT}/props/{i.lower()}.py").read()
    m = importlib.import_module(f"props.{i.lower()}")
    mcs = sorted(set(re.findall(r"MC_[A-Za-z]+(?:_[a-z0-9]+)*\.cfg", src)) or set(re.findall(r"MC_[A-Za-z]+", src)))
    out.append(f"### {i}. {p['title']}\n")
    out.append(f"*How it is decided.* {m.NOTE}\n")
    out.append(f"*Explored.* {m.RULE}.\n")
    if mcs: out.append("*Models.* " + ", ".join(f"`{x}`" for x in mcs) + f"; traces: `{getattr(m, 'TRACE', None) or 'Trace_' + i}`.\n")
    else: out.append(f"*Traces.* `{getattr(m, 'TRACE', None) or 'Trace_' + i}`.\n")
    out.append(f"*Why not tests.* {p['why_tests_cant']}\n")
    if getattr(m, "ASSUMPTIONS", None): out.append("*Assumptions.* " + "; ".join(m.ASSUMPTIONS) + ".\n")
    fx = [f.split(" ", 2)[2] for f in fixed if f.startswith(f"fixed: property={i} ")]
    if fx: out.append("*Defects found and repaired.*\n" + "\n".join(f"* `{x.split(' ',1)[0]}` {x.split(' ',1)[1]}" for x in fx) + "\n")
    sd = seeded.get(i, [])
    if sd: out.append("*Seeded changes, all caught by this check.*\n" + "\n".join(f"* `{d}`: {m2['what_it_breaks']} (needs {m2['needs']})" for d, m2 in sd) + "\n")
out.append(open(f"{ROOT}/tools/design/tail.md").read())
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out))
