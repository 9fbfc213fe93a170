"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS
from notes import NOTES, NA
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": "deterministic simulation with seeded schedule and fault search",
                       "level": "exploration", "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "machinery not built")})
m = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. No hooks were added to /repo: the simulators rewrite a scratch copy of its sources when they are built. VERIF_SEED selects the seeds, VERIF_SECS the time of a search."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
