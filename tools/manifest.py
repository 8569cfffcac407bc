#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
NOT_YET = {i: "the check is still being built" for i in "".split()}
NOTE = {}
DEF = ("Recorded runs of the code are checked, step by step, against the TLA+ specification by TLC; exhaustive over the listed small "
       "spaces and random beyond them. Trusts TLC, the YAML and JSON readers of the harness, and the generator's range (DESIGN.md).")
TECH = {}
checks = [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
               technique=TECH.get(i, "TLA+ specification; TLC trace validation of generated programs run in the real evaluator"),
               level="model_checking", level_note=NOTE.get(i, DEF)) for i in ids if i not in NOT_YET]
m = dict(version=1, setup_cmd="./check.sh --setup", checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NOT_YET.items()])
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
