#!/usr/bin/env python3
"""Regenerate MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 build.py",
     "hooks": {"guard": "none", "enable": "No hook was added to /repo: build.py compiles its sources unchanged and renames their references to libc's allocator, stdio, directory, loader, clock and randomness functions to the simulator's seams in the object files (objcopy --redefine-syms).", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    if i in PROPS:
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough", "technique": "deterministic simulation with fault injection: seeded operation histories, schedules and faults against an executable reference model",
            "level": "exploration", "level_note": PROPS[i]["rule"] + " Seeded search, not exhaustive: it assures the property on every run explored. Trusts the simulator's seams and reference model, glibc's stdio layer, AddressSanitizer for memory containment, and the assumptions listed in the evidence file."})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check is registered for it yet; see DESIGN.md.")})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1); open(H + "/MANIFEST.json", "a").write("\n")
