#!/usr/bin/env python3
"""Regenerates MANIFEST.json from tools/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import jobs as J
NA = getattr(J, "NOT_APPLICABLE", {})
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    i = json.loads(line)["id"]
    if i in J.PROPS:
        s = J.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
                           technique="runtime monitoring: " + s["technique"], level="exploration", level_note=s["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
confs = sorted({j["conf"] for s in J.PROPS.values() for j in s["jobs"]} | {c for s in J.PROPS.values() for c in s.get("confs", [])})
ints = sorted({j["conf"] for s in J.PROPS.values() for j in s["jobs"] if j.get("internal")})
m = dict(version=1, setup_cmd=" && ".join(f"python3 tools/build.py {c}" for c in confs) + "".join(f" && (python3 tools/build.py {c} --int || true)" for c in ints), checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors observe the public API of the whole library built with sanitizers by tools/build.py.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
