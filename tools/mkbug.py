# mkbug.py ID PROPERTY FILE OLD NEW NEEDS BREAKS < demo.cc
import sys,subprocess,os,json,shutil
def mk(id,prop,edits,needs,breaks,demo,standin=False):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout.strip()
    for f,a,b in edits:
        s=open('/repo/'+f).read(); assert s.count(a)==1,(f,a,s.count(a)); open('/repo/'+f,'w').write(s.replace(a,b))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/verif/tools/demo_template.sh',d+'/demo.sh'); open(d+'/demo.cc','w').write(demo)
    if standin:
        for f in ('pcg_random.hpp','XoshiroCpp.hpp'): shutil.copy('/verif/standin/'+f,d)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
