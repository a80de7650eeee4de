#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description of the properties."""
import json, os
from props import PROPS, NOT_APPLICABLE
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the real code's LLVM IR, every branch and assertion decided by z3"
NOTE = ("Holds for every input within the stated bounds where the evidence says a harness was exhausted; budgeted harnesses decide every "
        "path they reach. Trusted: clang 20, the IR instrumentation and its z3 encoding, z3 4.8.12, the harness's specification. ")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                             observe_at=p.get("observe", []), hook_needed=None))) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py " + p["id"],
                           thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           evidence_file="evidence/%s.json" % p["id"], technique=TECH,
                           level="model_checking", level_note=NOTE + p.get("note", "")))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NOT_APPLICABLE,
                   notes="No hooks in /repo: harnesses include and compile /repo's sources unmodified."),
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
