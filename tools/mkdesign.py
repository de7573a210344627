#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted changes and what catches them\n"
ALSO = {"c12-null-in-place": "C01, C04", "c12-lower-memo": "C18", "c14-position": "C11", "c14-global-handlers": "C11",
        "c19-equal-length": "C24", "c19-prefix": "C24", "c24-required": "C14", "c11-race": "C21", "c26-registry-state": "C14"}
MISSED = {"c05-dash-tag", "c06-empty-object", "c12-null-in-place", "c12-lower-memo", "c14-position", "c22-both-marks", "c23-types"}
extra = os.path.join(V, "tools", "planted_notes.json")
if os.path.exists(extra):
    with open(extra) as f:
        d = json.load(f)
    ALSO.update(d.get("also", {}))
    MISSED.update(d.get("missed", []))
rows = []
for p in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    with open(p) as f:
        m = json.load(f)
    i = os.path.basename(os.path.dirname(p))
    by = m["property"] + (", " + ALSO[i] if i in ALSO else "")
    rows.append("| %s | %s | %s%s |" % (i, m["what_it_breaks"].replace("|", "/"), by, " (after strengthening)" if i in MISSED else ""))
with open(os.path.join(V, "DESIGN.md")) as f:
    s = f.read()
s = s[:s.index(MARK)] if MARK in s else s.replace("SEEDED_TABLE\n", "")
s = s.rstrip("\n") + "\n\n" + MARK + """
Each was caught by the quick tier of the checks named; those marked were missed
at first. Each needs something specific to show (see its meta.json).

| change | what it breaks | caught by |
|---|---|---|
""" + "\n".join(rows) + "\n"
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(s)
