#!/usr/bin/env python3
"""Updates the costs in DESIGN.md and writes SUITES.md, from the evidence of a quick run of every check."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev = {}
for l in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(l)["id"]
    ev[i] = json.load(open(os.path.join(here, "evidence", i + ".json")))
    assert ev[i]["tier"] == "quick", i
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
for i, d in ev.items():
    n = d["coverage"]["traces_validated_against_impl"]
    a = s.index(f"### {i} ")
    b = s.index("*Cost (quick).* ", a)
    assert "\n### " not in s[a:b], i
    e = s.index(" *Beyond the tests", b)
    s = s[:b] + f"*Cost (quick).* {n:,} comparisons, {d['wall_s']:.0f} s." + s[e:]
open(p, "w").write(s)
suites = {}
for i, d in ev.items():
    for k, v in d["coverage"]["suites"].items():
        suites.setdefault(k, []).append((i, v))
out = ["# Enumerations of the quick tier", "", "Generated by tools/gen_design.py from the evidence. Numbers are those of the last property named.", "",
    "| enumeration | properties | inputs and operations | accepted by the model | rejected |", "|---|---|---:|---:|---:|"]
for k, l in suites.items():
    v = l[-1][1]
    out.append(f"| {k} | {', '.join(i for i, _ in l)} | {v['explored_nodes']:,} | {v['accepted_by_model']:,} | {v['rejected_by_model']:,} |")
open(os.path.join(here, "SUITES.md"), "w").write("\n".join(out) + "\n")
