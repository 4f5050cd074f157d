#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from checks/*.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from vlib import registry
from checks.na import NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
C = registry.all_checks()
checks = []
for i in ids:
    if i in C:
        c = C[i]
        checks.append(dict(property=i, quick_cmd="python3-vt check.py %s" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                           technique=c["technique"], level=c["level"], level_note=c["level_note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not built yet")) for i in ids if i not in C]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Solver-based checking of the real code: CBMC harnesses and an LLVM-IR symbolic executor with z3; see DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "n/a")
