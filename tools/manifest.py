"""Writes MANIFEST.json for the properties that have a check."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(f"{HERE}/properties.jsonl")]
checks = []
for prop in props:
    pid = prop["id"]
    if not os.path.exists(f"{HERE}/pbt/props/{pid.lower()}.py"):
        continue
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"VERIF_TIER=quick ./check.sh {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "property-based testing (Hypothesis) with an "
            "independent oracle, shrinking to a replay file",
            "level": "exploration",
            "level_note": "Random generated cases from stated strategies, "
            "decided by an oracle that does not use the code under test; "
            "a pass means no counterexample among the generated cases.",
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "notes": "Checks import py_fatigue from the working tree of /repo; "
    "compiled code is rebuilt in a temporary cache by each run. "
    "./check.sh ID --replay FILE runs one saved case again.",
}
with open(f"{HERE}/MANIFEST.json", "w") as fil:
    json.dump(manifest, fil, indent=1)
    fil.write("\n")
