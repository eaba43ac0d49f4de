#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = json.load(open(os.path.join(here, "tools", "levels.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "scn", i + ".cpp")) or os.path.exists(os.path.join(here, "scn", i + ".sh")):
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
            evidence_file=f"evidence/{i}.json",
            technique=n.get("technique", "property-based testing: generated programs, schedules and passage of time on a controlled runtime, checked against a model/invariant oracle, with shrinking"),
            level="exploration", level_note=n.get("note", NOTE["default"])))
    else:
        na.append(dict(property=i, reason=NOTE.get(i, {}).get("na", "check not built yet")))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified with compiler instrumentation", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Each check rebuilds the library from /repo with gcc's access instrumentation and links it with /verif/rt (own runtime: token-passing scheduler, virtual time, checked heap). Replay a failure with ./check.sh <ID> --replay out/<file>.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
