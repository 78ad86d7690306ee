#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the lists below (run by hand, output committed)."""
import json, os
from vpprops import PROPS, NOT_APPLICABLE, LEVEL_NOTES
import vpspecs
HERE = os.path.dirname(os.path.abspath(__file__))
have = {h["prop"] for h in vpspecs.HARNESSES}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
assert have <= set(ids), have - set(ids)
checks = []
na = []
for p in PROPS:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd="python3 vprun.py %s --tier quick" % i,
                           thorough_cmd="python3 vprun.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="bounded symbolic execution of the real C code (goto-cc + CBMC 6.11, SAT back end), counterexamples replayed natively",
                           level="model_checking",
                           level_note=LEVEL_NOTES.get(i, "every value of the symbolic inputs within the bounds listed per harness in the evidence file; environment calls are nondeterministic stubs")))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 vprun.py --setup", checks=checks, not_applicable=na,
         notes="one runner (vprun.py), one harness file per module in harness/, specs in vpspecs.py; see DESIGN.md")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "n/a")
