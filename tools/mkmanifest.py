#!/usr/bin/env python3
"""Writes MANIFEST.json from the rule modules present (run after adding a rule)."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    "C32": "Equality of every round-tripped value quantifies over run-time values (float formatting, date arithmetic, arbitrary text); a static "
           "argument in reach decides the tag, type and escaping agreement (C28) and the absence of cross-talk (C29), not value equality.",
    "C33": "The byte size of a serialised envelope depends on run-time text lengths, XML escaping and base64 growth that no sound static bound in "
           "reach covers; C02 decides the fragment budget the code derives from the limit.",
    "C34": "Termination depends on what the server eventually sends (a liveness property over an unbounded environment); C12/C19 decide the safety "
           "half: the loops poll only while running and stop exactly on the final states.",
}
TECH = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for i in ids:
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        if not os.path.exists(os.path.join(ROOT, "psa", "rules", i.lower() + ".py")):
            na.append({"property": i, "reason": "No check registered yet."})
            continue
        mod = importlib.import_module("psa.rules." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": getattr(mod, "TECHNIQUE", "static analysis: path-sensitive interprocedural typestate and dataflow analysis over the AST"),
            "level": "other",
            "level_note": getattr(mod, "LEVEL", "Static analysis of the current source: every obligation is derived from the syntax tree on each run "
                                  "by a path-sensitive dataflow analysis; loops are followed for 0, 1 and 2 generic elements."),
        })
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Pure static analysis of /repo/src/pypsrp (Python standard library only). See DESIGN.md."}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")


main()
