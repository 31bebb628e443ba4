#!/usr/bin/env python3
"""Fills the list of repairs and of planted bugs into DESIGN.md (between markers)."""
import json,os,re,glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t=open(H+"/DESIGN.md").read()
kf=[json.loads(l) for l in open(H+"/known_findings.jsonl") if l.strip()]
fx="<!-- fixes -->\nRepaired with `fix:` commits in /repo:\n\n"+"".join("* %s %s\n"%(k["property"],re.sub(r"^fixed: property=\S+ ","",k["what"])) for k in kf if k["status"]=="fixed")+"<!-- /fixes -->"
caught=json.load(open(H+"/tools/caught.json")) if os.path.exists(H+"/tools/caught.json") else {}
bg="<!-- bugs -->\n| bug | breaks | needs | caught by |\n|---|---|---|---|\n"
for f in sorted(glob.glob(H+"/seeded/*/meta.json")):
    i=f.split("/")[-2]; m=json.load(open(f)); esc=lambda s:s.replace("|","/").replace("\n"," ")
    bg+="| %s | %s | %s | %s |\n"%(i,esc(m["what_it_breaks"]),esc(m["needs"]),caught.get(i,m["property"]))
bg+="<!-- /bugs -->"
for tag,txt in (("fixes",fx),("bugs",bg)):
    if "@%s@"%tag.upper() in t: t=t.replace("@%s@"%tag.upper(),txt)
    else: t=re.sub(r"<!-- %s -->.*?<!-- /%s -->"%(tag,tag),lambda m:txt,t,flags=re.S)
open(H+"/DESIGN.md","w").write(t)
