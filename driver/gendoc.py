#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from texts.py and props.py (development helper)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from texts import TEXTS, NA
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "bounded symbolic execution of the real Rust source (f64 retyped to symbolic reals), assertions decided by SMT (z3/cvc5)"
NOTE = ("Within the stated bounds the solver decides every assertion on every path of the real code; floating-point is read as "
        "real arithmetic with tolerances; random draws and inner optimizers are arbitrary stand-ins; the retyping tool, the engine and the "
        "solvers are trusted, completed paths and counterexamples are replayed on the plain f64 build. Bounds: ")
with open(f"{V}/properties.jsonl", "w") as f:
    for i in sorted(TEXTS):
        t = TEXTS[i]
        f.write(json.dumps(dict(id=i, title=t["title"], statement=t["statement"],
            quantifier=dict(over=t["over"], text=t["text"]), why_tests_cant=t["why"],
            anchors=dict(files=t["files"], mechanism=[dict(name=a, where=b) for a, b in t["mech"]]))) + "\n")
        assert len(t["title"]) <= 80, i
checks = [dict(property=i, quick_cmd=f"python3 driver/check.py {i}", thorough_cmd=f"python3 driver/check.py {i} --tier thorough",
               technique=TECH, level="model_checking", level_note=NOTE + PROPS[i]["bounds"]) for i in sorted(PROPS)]
na = [dict(property=i, reason=r) for i, r in sorted(NA.items())]
assert set(PROPS) | set(NA) == set(TEXTS) and not set(PROPS) & set(NA), set(TEXTS) ^ (set(PROPS) | set(NA))
json.dump(dict(version=1, setup_cmd="python3 driver/setup.py", checks=checks, not_applicable=na,
    notes="All machinery is offline and regenerated from /repo on every run; see DESIGN.md."), open(f"{V}/MANIFEST.json", "w"), indent=1)
