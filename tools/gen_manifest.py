#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py and properties.jsonl"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "RP3D_VERIF", "enable": "no hook was needed: the checks compile /repo/src and /repo/include unmodified (no guarded code exists)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in ids:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c.get("level", "model_checking"), "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "no check has been built for it yet")})
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print(len(m["checks"]), "checks")
