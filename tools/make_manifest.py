"""writes MANIFEST.json from lib/checks.py and properties.jsonl"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
sys.dont_write_bytecode = True
from checks import CHECKS, NOTES, TECH

NOT = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        checks.append(
            dict(
                property=i,
                quick_cmd="python3 check.py " + i,
                thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                technique=TECH.get(i, TECH["*"]),
                level="model_checking",
                level_note=NOTES.get(i, NOTES["*"]),
            )
        )
    else:
        na.append(dict(property=i, reason=NOT.get(i, "its check is not built yet")))
m = dict(
    version=1,
    setup_cmd="python3 setup.py",
    checks=checks,
    not_applicable=na,
    notes="TLA+ checked with TLC. No hooks: the drivers in drv/ only use the public interface "
    "of the package and subclasses of its documented base classes.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
