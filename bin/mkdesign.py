#!/usr/bin/env python3
"""Writes DESIGN.md from design.in, the property records and the notes below."""
import glob
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props, propdata, designnotes
out = []
for p in propdata.PROPERTIES:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(designnotes.NOTES.get(i, "Not built.") + "\n")
    if i in props.PROPS:
        P = props.PROPS[i]
        ds = "; ".join("`driver/%s` -> `spec/%s.tla`, %s cases" % (
            d["driver"] + (".py" if d.get("py") else ".cpp"), d["trace"],
            "%d / %d" % tuple(d["gen"]["n"] if "gen" in d else d["n"])) for d in P["drivers"])
        ms = ", ".join("`%s` (%s)" % m for m in P.get("models", []) + P.get("models_thorough", []))
        out.append("Conformance (quick / thorough): %s. Models: %s.\n" % (ds, ms))
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    n = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"],
                                         designnotes.CAUGHT.get(n, "not yet run")))
s = open(os.path.join(V, "bin", "design.in")).read()
s = s.replace("%(PROPS)s", "\n".join(out)).replace(
    "%(SEEDED)s", "| change | property | what it breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
