#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks the analyser registers and the reasons below."""
import json, subprocess, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
items=json.loads(subprocess.check_output([root+'/checker/metischeck','list']))
props=[json.loads(l) for l in open(root+'/properties.jsonl')]
NA=json.load(open(root+'/tools/not_applicable.json'))
checks=[]
have={i['ID'] for i in items}
for i in items:
    checks.append({"property":i['ID'],"quick_cmd":"./check.sh %s quick"%i['ID'],"thorough_cmd":"./check.sh %s thorough"%i['ID'],
      "technique":"static analysis: "+i['Technique'],"level":"other","level_note":i['How']})
na=[{"property":p['id'],"reason":NA.get(p['id'],"no check has been built for this property yet")} for p in props if p['id'] not in have]
json.dump({"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na},open(root+'/MANIFEST.json','w'),indent=1)
print(len(checks),"checks",len(na),"not applicable")
