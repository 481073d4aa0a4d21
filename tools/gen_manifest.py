#!/usr/bin/env python3
import json
NA = {}
TH = {  # names of the lemmas / functions whose obligations state the property
}
exec(open('/verif/tools/theorems.py').read())
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    i=p['id']
    if i in NA: continue
    checks.append({"property":i,"quick_cmd":f"python3 check.py {i} --tier quick","thorough_cmd":f"python3 check.py {i} --tier thorough",
      "technique":"contract-based deductive verification (Verus) of the functions extracted from /repo on every run; failing obligations are searched for a concrete input on the real crates",
      "level":"proof","level_note":NOTE[i],"theorems":TH[i]})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
 "notes":"No hooks in /repo. 13 fix: commits repair genuine defects; see known_findings.json and DESIGN.md."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
