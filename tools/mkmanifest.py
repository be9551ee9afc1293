#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from mf_data import CLAIMED, NA
props=[json.loads(l)['id'] for l in open(V+'/properties.jsonl')]
m={"version":1,"setup_cmd":"./build.sh","checks":[],"not_applicable":[]}
for p in props:
    if p in CLAIMED:
        m["checks"].append({"property":p,"quick_cmd":f"./check.sh {p} quick","thorough_cmd":f"./check.sh {p} thorough","evidence_file":f"evidence/{p}.json",
          "technique":"deterministic simulation with fault injection (seeded search over schedules and fault sequences, model oracle)","level":"exploration","level_note":CLAIMED[p]})
    else:
        m["not_applicable"].append({"property":p,"reason":NA[p]})
m["notes"]="No hooks in /repo: the seam is the libc symbol boundary, renamed in the compiled objects (see DESIGN.md)."
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
