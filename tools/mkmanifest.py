#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl and the checks that exist"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C34": "The ROOT readers and writers cannot be built here: ROOT is not installed and cannot be fetched, and its dictionaries and I/O layer have no seam that a stand-in could replace faithfully, so there is no implementation to explore.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(V, "checks", i + ".py")
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(path):
        m = importlib.import_module("checks." + i)
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "technique": m.TECHNIQUE, "level": "model_checking", "level_note": m.NOTE})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "hooks": {"guard": "PODIO_VERIF", "enable": "no hooks are needed: the checks use the public interfaces and interpose compiler and libc entry points", "source_commits": []},
    "not_applicable": na,
    "notes": "Every check is an exhaustive enumeration of bounded executions of the real code (vf.h explorer, controlled scheduler, or complete input families against a reference model).",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
