"""plant.py SPECFILE: python file defining SPECS list of dicts"""
import sys,os,subprocess,json,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
only=[x for x in sys.argv[2:] if x[0]!='-']
dry='-n' in sys.argv
for sp in ns['SPECS']:
    i=sp['id']
    if only and i not in only: continue
    d='/verif/seeded/'+i
    w='/tmp/plant/'+i
    shutil.rmtree(w,True); os.makedirs('/tmp/plant',exist_ok=True)
    subprocess.run(['cp','-a','/repo',w],check=True)
    for f,old,new in sp['edits']:
        p=os.path.join(w,f); s=open(p,encoding='utf8').read()
        assert s.count(old)==1,(i,f,s.count(old),old)
        open(p,'w',encoding='utf8').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write('import os\nimport sys\nsys.path.insert(0, os.getcwd())\n'+sp['demo'].lstrip('\n'))
    open(d+'/demo.sh','w').write('#!/bin/sh\nexec jython -B -Dpython.cachedir.skip=true "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':sp['property'],'needs':sp['needs'],'what_it_breaks':sp['breaks']},open(d+'/meta.json','w'),indent=1)
    a=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    b=subprocess.run(['bash',d+'/demo.sh'],cwd=w,capture_output=True,text=True)
    if dry:
        c=subprocess.run(['python3-vt','run.py',sp['property'],'quick'],cwd='/verif',capture_output=True,text=True,env=dict(os.environ,VERIF_REPO=w))
        print(i,sp['property'],'demo',a.returncode,b.returncode,(a.stderr+b.stdout+b.stderr)[-200:],'CHECK rc',c.returncode,(c.stdout.strip().splitlines() or [''])[0][:230],flush=True)
        shutil.rmtree(d,True); shutil.rmtree(w,True); continue
    subprocess.run(['git','-C','/repo','apply',d+'/patch.diff'],check=True)
    try:
        t='/tmp/plant/t.json'
        subprocess.run(['bash','/opt/vp/test.sh',t],capture_output=True)
        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable_pass']) if 0 else None
        res=json.load(open(t))
        c=subprocess.run(['python3-vt','run.py',sp['property'],'quick'],cwd='/verif',capture_output=True,text=True)
    finally:
        subprocess.run(['git','-C','/repo','checkout','--','.'],check=True)
    P='/verif/tools/planted.json'
    r=json.load(open(P)); r[i]=[sp['property']] if c.returncode==1 and 'VIOLATION property='+sp['property'] in c.stdout else []
    json.dump(dict(sorted(r.items())),open(P,'w'),indent=1)
    print(i,sp['property'],'tests',len(res['passed']),len(res['failed']),'CHECK rc',c.returncode)
    print('   ','\n    '.join(c.stdout.strip().splitlines()[:8]) if 1 else '')
    print(i,'demo unchanged',a.returncode,'patched',b.returncode, (b.stdout+b.stderr).strip().splitlines()[-1:] , a.stderr[-300:] if a.returncode else '')
    shutil.rmtree(w,True)
