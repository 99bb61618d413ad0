import json,os,glob,re
ids=[json.loads(l) for l in open('/verif/properties.jsonl')]
T = json.load(open("/verif/tools/techniques.json"))
checks=[];na=[]
for d in ids:
    pid=d['id']
    if glob.glob('/verif/pbt/checks/%s_*.py'%pid.lower()):
        checks.append(dict(property=pid,quick_cmd="./run %s --tier quick"%pid,thorough_cmd="./run %s --tier thorough"%pid,
          evidence_file="evidence/%s.json"%pid,technique=T[pid][0],level="exploration",level_note=T[pid][1]))
    else: na.append(dict(property=pid,reason="check not built yet"))
json.dump(dict(version=1,setup_cmd="./run --selftest",checks=checks,not_applicable=na,
  notes="No hooks in /repo. See DESIGN.md."),open('/verif/MANIFEST.json','w'),indent=1)
