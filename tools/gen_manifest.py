#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}   # id -> (technique, note)
def t(id,tech,note): T[id]=(tech,note)
t("C01","trace monitor: recorder event log checked against an executable reference semantics over random task graphs","held on the generated graphs and observed schedules; trusts the recorder's append-only log order and the reference semantics in harness/sem.go")
t("C02","trace monitor with injected command failures against a reference semantics","held on the generated failure patterns; parallel blocks whose preparation fails are judged by exit status only")
t("C03","trace monitor over parallel blocks with random delays and failures","held on the generated blocks and observed completion orders")
t("C05","trace monitor (exactly-once, wait-for, failure propagation) over branches sharing tasks under random delays","held on the observed interleavings, not on all")
t("C06","reference-model monitor over hostile variable values and condition forms","held on the generated conditions and values")
t("C07","reference-model monitor over event log and output for excluded items","runs on linux only: darwin and windows are exercised as foreign platforms")
t("C10","recorder of the real environment of every command compared with the overlay model","compares the E_* variables and the colour variables of every command")
t("C11","recorder of the real working directory of every command compared with the model","held on the generated layouts, directories behind links included")
t("C08","recorder of the real text, environment and directory of every command compared with a reference interpolator","held on the generated templates and values")
t("C09","recorder of variable values compared with a reference resolver, repeated runs for order dependence","held on the generated definition sets")
t("C12","output monitor (echo and own output of every command) against the cascade model","held on the generated assignments")
t("C20","differential monitor: namespace:task of an including project against task run from its own file","one listed known finding; held on the generated trees otherwise")
t("C21","process monitor of dry runs, differential against the event log of a real run","held on the generated projects")
t("C22","recorder of prompt results without a terminal against the model","held on the generated prompts")
exec(open(os.path.join(here,"tools","manifest_more.py")).read()) if os.path.exists(os.path.join(here,"tools","manifest_more.py")) else None
NA=globals().get("NA",{})
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in T:
        checks.append(dict(property=i,quick_cmd=f"./run.sh {i}",thorough_cmd=f"./run.sh {i} thorough",technique=T[i][0],level="exploration",level_note=T[i][1]))
    else:
        na.append(dict(property=i,reason=NA.get(i,"check not built yet")))
m=dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="Every check runs the real bab, built from /repo's working tree, under generated workloads while monitors observe it; see DESIGN.md.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
print(len(checks),"checks",len(na),"not claimed")
