#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/props.py and tools/notapplicable.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from props import PROPS
na = json.load(open(HERE + "/tools/notapplicable.json"))
checks = []
for pid in sorted(PROPS):
    P = PROPS[pid]
    tech = P.get("technique", "abstract interpretation of LLVM IR (context-sensitive constant, polynomial and gated value flow; joins at post-dominators; no solver, no execution)")
    checks.append(dict(property=pid, quick_cmd="python3 tools/run.py %s --tier quick" % pid, thorough_cmd="python3 tools/run.py %s --tier thorough" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=tech, level="other",
                       level_note=P.get("level_note", "static value-flow analysis of the compiled intermediate representation; obligations are compared with an independent definition; see DESIGN.md for bounds")))
m = dict(version=1, setup_cmd="bash tools/setup.sh", checks=checks, not_applicable=na,
         notes="Every check compiles /repo's current sources to LLVM IR in a scratch directory and analyses that IR; nothing of the library is executed.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
