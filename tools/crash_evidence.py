#!/usr/bin/env python3
"""crash_evidence.py ID LOG STATUS: the evidence file of a run that a sanitizer ended."""
import json, os, re, sys
pid, log, rc = sys.argv[1:4]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(log, errors="replace").read()
m = re.search(r"ERROR: (AddressSanitizer: \S+)|SUMMARY: (.*)", text)
what = (m.group(1) or m.group(2)) if m else f"process ended with status {rc}"
frames = re.findall(r"in (siderust\S*|c25\S*) ([^\s]+)", text)[:8]
ev = {
    "property": pid,
    "tier": os.environ.get("VERIF_TIER", "quick"),
    "seed": int(os.environ.get("VERIF_SEED", "1")),
    "level": "other",
    "coverage": {
        "explanation": f"the run was ended by {what} before its counters could be written",
        "ended_by": what,
        "frames": [" ".join(f) for f in frames],
        "replay": log,
    },
    "wall_s": float(sys.argv[4]) if len(sys.argv) > 4 else 0.0,
}
json.dump(ev, open(f"{here}/evidence/{pid}.json", "w"), indent=1)
