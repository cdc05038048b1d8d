#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one paragraph per property + tools/design_tail.md"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
man = json.load(open(V + "/MANIFEST.json"))
na = {e["property"]: e["reason"] for e in man["not_applicable"]}
out = [open(V + "/tools/design_head.md").read(), "\n## The properties\n"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    out.append(f"\n### {p['id']} {p['title']}\n")
    if p["id"] in na:
        out.append(f"\nNot applicable / not claimed: {na[p['id']]}\n")
        continue
    m = importlib.import_module("checks." + p["id"])
    out.append(f"\n* Decided by: {m.TECHNIQUE}.\n* Explored: {m.NOTE}\n")
    if getattr(m, "WHY", None):
        out.append(f"* Beyond the tests: {m.WHY}\n")
out.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("".join(out))
