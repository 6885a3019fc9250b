"""writes /verif/MANIFEST.json from the property modules that exist"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, V)
from vlib import scen  # noqa
scen.setup_paths()
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(V, "props", i.lower() + ".py")):
        na.append(dict(property=i, reason=NA.get(i, "the check for this property is not built yet")))
        continue
    m = importlib.import_module("props." + i.lower())
    checks.append(dict(
        property=i,
        quick_cmd="python3-vt check.py %s" % i,
        thorough_cmd="python3-vt check.py %s --tier thorough" % i,
        technique=getattr(m, "TECHNIQUE", "symbolic execution of compiler and emitted TEAL, z3 equivalence with source semantics"),
        level=getattr(m, "LEVEL", "translation_validation"),
        level_note=getattr(m, "NOTE", "Within the bounds of the evidence file the emitted TEAL agrees with reference semantics written "
                           "from the language guide for every run-time value and symbolic literal; trusts vlib's AVM model and z3."),
    ))
out = dict(version=1, setup_cmd="python3-vt tools/setup.py", checks=checks, not_applicable=na,
           hooks=dict(guard="VERIF_HOOKS", enable="no hooks: the checks import the unmodified code of /repo", source_commits=[]),
           notes="Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.json.")
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
