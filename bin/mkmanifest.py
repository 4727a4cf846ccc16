#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdata.py and props.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import props  # noqa: E402
import propdata  # noqa: E402

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in propdata.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")

NOTE = ("Exhaustive TLC checking of the bounded specification where one is listed under "
        "`models` in the evidence; agreement of the implementation with the specification "
        "is established on the generated and recorded traces only (TLC decides each one), "
        "under AddressSanitizer. Trusts TLC, the trace recorder in driver/ and the compiler. ")
checks = []
na = []
for p in propdata.PROPERTIES:
    i = p["id"]
    if i not in props.PROPS:
        na.append({"property": i, "reason": "No check built yet."})
        continue
    q = props.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 bin/vrun.py %s quick" % i,
        "thorough_cmd": "python3 bin/vrun.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": q.get("technique", "TLA+ specification, TLC model checking and trace "
                           "validation of the real code"),
        "level": q["level"],
        "level_note": NOTE + q.get("note", ""),
    })
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump({
        "version": 1,
        "setup_cmd": "python3 bin/setup.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks: the checks observe the public API, AddressSanitizer, and symbols "
                 "interposed from the driver executables.",
    }, f, indent=1)
    f.write("\n")
