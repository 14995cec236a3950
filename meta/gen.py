#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from meta/props.py and the harness files present"""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(D, "meta"))
from props import P
import na
have = {f[:3].upper() for f in os.listdir(os.path.join(D, "harness")) if f[0] == "p" and f.endswith(".py")}
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for x in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps(p) + "\n")
NOTE = ("Exact symbolic execution of the real source over rational functions; z3 decides every obligation for all values of the "
        "symbolic inputs within the stated sizes, every solver counterexample is replayed on the real float code, and the base point "
        "of each case is validated against it. Trusts: exact reals for float64, libpysal/pandas, the numpy/scipy stand-ins of symx; "
        "distribution tails uninterpreted, optimisers arbitrary points of their box.")
m = dict(version=1, setup_cmd="/opt/venv/bin/python run.py --selftest",
         checks=[dict(property=p["id"], quick_cmd="./run.py " + p["id"], thorough_cmd="env VERIF_TIER=thorough ./run.py " + p["id"],
                      technique="symbolic execution of the real source + SMT (z3)", level="model_checking",
                      level_note=na.NOTES.get(p["id"], "") + NOTE)
                 for p in P if p["id"] in have and p["id"] not in na.NA],
         not_applicable=[dict(property=p["id"], reason=na.NA.get(p["id"], "no check built yet"))
                         for p in P if p["id"] not in have or p["id"] in na.NA],
         notes="run.py is the only entry point; see DESIGN.md")
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
