#!/usr/bin/env python3
# Writes MANIFEST.json from checks.json and properties.jsonl.
import json
checks=json.load(open('checks.json')); props=[json.loads(l) for l in open('properties.jsonl')]
out={"version":1,"setup_cmd":"python3 vf.py --setup","checks":[],"not_applicable":[]}
for p in props:
    c=checks.get(p["id"])
    if c:
        out["checks"].append({"property":p["id"],"quick_cmd":f"python3 vf.py {p['id']} --tier quick","thorough_cmd":f"python3 vf.py {p['id']} --tier thorough",
          "evidence_file":f"evidence/{p['id']}.json","technique":c["technique"],"level":"model_checking","level_note":c["note"]})
    else: out["not_applicable"].append({"property":p["id"],"reason":"no check built yet"})
json.dump(out,open('MANIFEST.json','w'),indent=1); open('MANIFEST.json','a').write("\n")
