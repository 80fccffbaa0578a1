#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and the properties."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
NA = {
 "N01": "whether rewritten text means the same to a browser quantifies over browser semantics of arbitrary input text; no static argument over this code reaches it (the structural part, no token dropped and every kind written back, is claimed as C10 and C36)",
 "N02": "the crop rectangle is the result of float and integer arithmetic for every image and target size; numerical results are outside what a static shape argument decides",
 "N03": "equality of the output folders over all edit histories is a relation between whole executions; the structural necessary conditions are claimed as C06-C09, C16, C27-C30",
 "N04": "debouncing is about elapsed time and event arrival, which no static argument bounds",
 "N05": "structural equality of two graphs depends on the runtime contents of both; the test suite's comparisons settle it better than a shape rule",
}
NOTE = "Decided on an interprocedural control-flow graph of the current source with value terms (calls inlined per call site, branch edges carrying their conditions, exceptions as edges). Trusted: the engine's models of the standard library calls used, and the rules listed in the evidence file; a call whose target cannot be resolved is treated as opaque."
checks = []
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
have = {f[:-3].upper() for f in os.listdir(HERE + "/checks") if f[0] == "c" and f[1:3].isdigit() and f.endswith(".py")}
na = []
for p in props:
    i = p["id"]
    if i in have:
        m = importlib.import_module("checks." + i.lower())
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py " + i, evidence_file="evidence/%s.json" % i,
                           technique=m.TECHNIQUE, level=getattr(m, "LEVEL", "other"), level_note=getattr(m, "NOTE", NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i) or "no check has been built for it yet"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="All checks are static analyses of /repo's current source in plain Python 3 (no dependency); no hooks were added to /repo."),
          open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
