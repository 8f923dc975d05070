#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py, and known_findings.json from findings.py."""
import json, os, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE
from findings import FIXED, KNOWN

with open(D + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    checks.append({
        "property": p["id"],
        "quick_cmd": "bash /verif/run.sh check %s quick" % p["id"],
        "thorough_cmd": "bash /verif/run.sh check %s thorough" % p["id"],
        "technique": p.get("tech", "explicit-state model checking of the implementation: exhaustive stateless exploration of the real code under a controlled scheduler, clock and network"),
        "level": p.get("level", "model_checking"),
        "level_note": p["note"],
    })
json.dump({"version": 1, "setup_cmd": "bash /verif/setup.sh",
           "hooks": {"guard": "none (no hook is committed in /repo: the checks instrument a scratch copy of the working tree)",
                     "enable": "run.sh copies /repo to a scratch folder, rewrites time, sync, net/http, go statements and randomness there to /verif/vrt, and builds that copy",
                     "source_commits": []},
           "checks": checks, "not_applicable": NOT_APPLICABLE}, open(D + "/MANIFEST.json", "w"), indent=1)
open(D + "/MANIFEST.json", "a").write("\n")
kf = [{"property": p, "sig": "", "status": "fixed", "what": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in FIXED]
kf += [{"property": p, "sig": s, "status": "known", "what": w} for p, s, w in KNOWN]
json.dump(kf, open(D + "/known_findings.json", "w"), indent=1)
open(D + "/known_findings.json", "a").write("\n")
