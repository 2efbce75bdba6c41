#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: every property with a harness is claimed, the others are listed with the reason.
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA={}
exec(open(V+'/tools/manifest_notes.py').read())
checks=[];na=[]
for p in props:
    i=p['id']
    if glob.glob(V+'/harness/%s_*.go'%i.lower()) and i not in NA:
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,
          "technique":"symbolic execution of the Go SSA of the real code with an SMT solver (bounded model checking; symbolic schedules where concurrent)",
          "level":"model_checking","level_note":NOTES.get(i,"Holds for every value within the stated bounds; environment models and bounds are listed in DESIGN.md and the evidence file.")})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump({"version":1,"setup_cmd":"./check.sh setup","checks":checks,"not_applicable":na,
  "notes":"No hooks: the harness packages are added to /repo's module through a go build overlay; /repo holds only fix: commits."},open(V+'/MANIFEST.json','w'),indent=1)
