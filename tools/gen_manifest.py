"""Writes MANIFEST.json from the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from registry import WHERE, NOTES, NOT_APPLICABLE

claimed = [p for ps in WHERE.values() for p in ps]
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=[
        dict(
            property=p,
            quick_cmd=f"./check {p}",
            thorough_cmd=f"VERIF_TIER=thorough ./check {p}",
            evidence_file=f"evidence/{p}.json",
            technique=NOTES[p][0],
            level="model_checking",
            level_note=NOTES[p][1],
        )
        for p in props if p in claimed
    ],
    not_applicable=[
        dict(property=p, reason=NOT_APPLICABLE.get(p, "check under construction"))
        for p in props if p not in claimed
    ],
    notes="TLA+ specifications in specs/, checked with TLC and bound to the code by "
    "replaying generated behaviours and validating recorded traces. No hooks in /repo.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
