#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
T = {}
BASE = "TLA+ (TLC): specification %s, recorded runs of the real crate validated against PalmMap.tla step by step"
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = {"C19": "a property of the types (which combinations the compiler lets cross threads), decided by rustc's trait solver before any behaviour exists: there is no state or transition for a TLA+ specification to describe, and no run of the crate to validate"}
NOTE = "Every run explored is judged exactly, call by call, by the specification; what no explored run does is not decided. Trusts TLC, rustc/std and the recording driver (harness/src)."
NOTES = {}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique="model-based verification: TLA+ specification checked with TLC, trace validation of real runs against it",
                       level="model_checking", level_note=NOTES.get(i, NOTE)))
m = dict(version=1, setup_cmd="sh setup.sh", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="Each check builds the driver in /verif/harness (path dependency on /repo, no hooks) from /repo's working tree. KNOWN_FINDINGS lists the defects found and repaired.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
