#!/usr/bin/env python3
"""Writes MANIFEST.json: python3 tools/mkmanifest.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
    # id: (technique, level note)
    "C01": ("stateful model-based property testing (rapid): random histories of event operations against a nested-map model",
            "No counterexample in the histories generated. Trusts the model in harness/vlib/model.go; names with a backslash cannot be written as keys and are only read through other paths."),
    "C02": ("property testing (rapid): generated path pairs, key round trip through the raw event structure",
            "No counterexample among the generated path pairs. Names with backslashes are outside the property."),
}
NOT = {}
try:
    from manifest_table import CLAIMED, NOT  # noqa: F811
except ImportError:
    pass

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=[dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p,
                 thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                 evidence_file="evidence/%s.json" % p,
                 technique=CLAIMED[p][0], level="exploration", level_note=CLAIMED[p][1])
            for p in props if p in CLAIMED],
    not_applicable=[dict(property=p, reason=NOT.get(p, "The check for this property is not built yet."))
                    for p in props if p not in CLAIMED],
    notes="All checks: check.py ID, see DESIGN.md. No hooks in /repo: only public APIs and built commands are driven. known_findings.txt lists findings and repaired defects.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
