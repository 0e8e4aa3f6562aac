#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {"C26": "A pure function of its input: no schedule, clock, I/O, fault or second party can influence the conversion, so a simulated execution adds nothing to a direct computation. (Its result is exercised incidentally: the reference model recomputes it in the checks of C03, C11 and C23.)"}
CLAIMED = [p["id"] for p in props if p["id"] not in NA] if os.path.exists(here + "/coord/go.mod") else []
TECH = "deterministic simulation with fault injection: seeded search over I/O schedules, faults, crashes and histories"
NOTE = ("Seeded exploration, not proof: the real, unmodified psignify code runs over a simulated kernel (system calls, randomness, "
        "terminal, scheduler), and each run is judged against an independent reference model of the signify formats. "
        "Trusted: the simulated kernel, the reference model and the standard library. ")
EXTRA = {}
m = {"version": 1, "setup_cmd": "./build.sh .build/setup",
     "hooks": {"guard": "none in /repo", "enable": "go build -overlay: the checks lay a boot file into cmd/psignify and patched copies of syscall, os and crypto/rand under the unmodified source; see overlay/mkoverlay.py", "source_commits": []},
     "checks": [{"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                 "level": "exploration", "technique": TECH, "level_note": NOTE + EXTRA.get(i, "")} for i in CLAIMED],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
if not CLAIMED:
    m["not_applicable"] += [{"property": p["id"], "reason": "check under construction"} for p in props if p["id"] not in NA]
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
