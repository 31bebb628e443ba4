#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.json and properties.jsonl."""
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks=json.load(open(H+"/checks.json")); props=[json.loads(l) for l in open(H+"/properties.jsonl")]
out={"version":1,"setup_cmd":"python3 run.py selftest",
 "hooks":{"guard":"none","enable":"no hooks: the checks use the public interfaces of /repo only","source_commits":[]},
 "checks":[],"not_applicable":[],
 "notes":"Each check builds its driver and the needed libraries from /repo's working tree into /verif/build, runs the generated-case search, and writes evidence/<id>.json. Replay a failure with: python3 run.py replay <id> <file>."}
for p in props:
    i=p["id"]
    if i in checks:
        out["checks"].append({"property":i,"quick_cmd":"python3 run.py check "+i,"thorough_cmd":"VERIF_TIER=thorough python3 run.py check "+i,"evidence_file":"evidence/%s.json"%i,
          "technique":checks[i].get("technique","property-based testing: generated inputs against a dense reference model, with shrinking"),
          "level":"exploration","level_note":checks[i].get("level_note","Holds on all generated cases of the run (counts in the evidence); says nothing about inputs outside the generators' ranges. Trusts the reference model in /verif/drivers and Eigen.")})
    else:
        out["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(out,open(H+"/MANIFEST.json","w"),indent=1,ensure_ascii=False)
