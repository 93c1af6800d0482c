#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan (run after changing the plan)."""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
from plan import PLAN
NOTE = ("Exploration: no violation on the generated cases counted in the evidence file; says nothing about cases not generated. "
        "Trusts the independent reference model (validated against published vectors), the compilers and qemu.")
SPECIAL = {
    "C22": ("property-based testing of API histories in guarded buffers, under ASan, UBSan bounds and MSan, and with guard pages for assembly", None),
    "C23": ("property-based testing of concurrent API histories in threads, with and without TSan", "Exploration of the schedules the machine happens to take, on generated concurrent histories; TSan extends it to unsynchronised accesses that did not collide."),
    "C20": ("property-based testing with generated alterations of genuine messages, model as oracle", None),
    "C21": ("property-based testing: generated refused calls inserted into valid histories (metamorphic), model as oracle", None),
    "C24": ("property-based differential testing of each stand-alone implementation against the model", None),
    "C25": ("property-based testing of generated command lines and files against the model", None),
    "C26": ("property-based testing of generated histories on SnP and PlSnP objects, with refused calls, and metamorphic checks of steps and inverses, model as oracle", None),
    "C28": ("property-based testing of generated selections of services and implementations, on generated API histories with the model as oracle, with shrinking of both", None),
    "C27": ("property-based testing of generated call histories with very long inputs and outputs, differential against a streaming reference, with shrinking", None),
}
checks = []
for pid, p in PLAN.items():
    tech, note = SPECIAL.get(pid, ("model-based property-based testing of generated API histories on all implementations, with shrinking", None))
    checks.append({"property": pid, "quick_cmd": f"python3 check.py run {pid}", "thorough_cmd": f"python3 check.py run {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": tech, "level": "exploration", "level_note": note or NOTE})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'tools'); import plan\"", "checks": checks, "not_applicable": [],
     "notes": "Every check builds the executors and the driver from /repo's working tree in a scratch directory it removes. Findings and fixes: known_findings.txt."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
