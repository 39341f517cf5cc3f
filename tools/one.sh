cd /verif; python3-vt - "$@" <<'P'
import sys,json,time
sys.path.insert(0,'/verif')
from engine import prog
h,f,params=sys.argv[1],sys.argv[2],json.loads(sys.argv[3])
secs=float(sys.argv[4]) if len(sys.argv)>4 else 60
prog.dump('/tmp/d.json'); P=prog.Program('/tmp/d.json')
r=prog.run_job(P,prog.Job(h,f,params),{'seconds':secs,'seed':1})
for k in ('functions','labels','witnesses','models','const_reads'): r.pop(k,None)
r["job"]=None; print(json.dumps(r,indent=0)[:3000])
P
