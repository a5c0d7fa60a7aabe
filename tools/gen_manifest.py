#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/checks")
import specs
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
na = getattr(specs, "NOT_APPLICABLE", {})
m = dict(version=1, setup_cmd="python3 checks/build.py", checks=[], not_applicable=[],
         notes="No hooks in /repo: the checks interpose at the system-call boundary of objects compiled from it (harness/shim.cpp, cli/wrap.cpp), at the C library's boundary (bind/tee.cpp), and otherwise use public interfaces only.")
for i in ids:
    if i in specs.SPECS:
        s = specs.SPECS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 checks/run.py " + i, thorough_cmd="python3 checks/run.py %s thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=s.get("technique", "runtime monitoring: recorded histories aligned with a reference model, under AddressSanitizer and UBSan"),
                                level=s["level"], level_note=s.get("note", "Held on the executions counted in the evidence file; nothing is said about others.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "no check yet")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
