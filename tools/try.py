#!/usr/bin/env python3
# dev aid: try.py BIN PROP FIRST COUNT [TIER] — runs seeds, summarises violations
import subprocess,sys,json,os,collections,time
from concurrent.futures import ThreadPoolExecutor
b,p,f,n=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
tier=sys.argv[5] if len(sys.argv)>5 else "quick"
env=dict(os.environ,GOGC="off",GOMAXPROCS="1",TZ="UTC")
def run(s):
    t=time.time()
    try:
        r=subprocess.run([b,"run",p,str(s),tier],capture_output=True,env=env,timeout=90)
    except subprocess.TimeoutExpired:
        return s,None,"timeout",90
    o=r.stdout
    i=o.rfind(b'\n{"prop":')
    if i>=0:o=o[i+1:]
    try: return s,json.loads(o),"",time.time()-t
    except Exception as e: return s,None,(r.stderr[:1500].decode(errors="replace")+str(r.returncode)),time.time()-t
k=collections.OrderedDict();c=0;t0=time.time();faults=collections.Counter();counts=collections.Counter();checks=0;simns=0;mx=(0,0);fam=collections.Counter()
with ThreadPoolExecutor(8) as ex:
    for s,v,err,d in ex.map(run,range(f,f+n)):
        c+=1
        if d>mx[0]:mx=(d,s)
        if v is None:
            k.setdefault("ERR "+err[:80],[]).append((s,err));continue
        faults.update(v["faults"]);counts.update(v["counts"]);checks+=v["checks"];simns+=v["sim_ns"];fam[v["family"]]+=1
        if v["checks"]==0:k.setdefault("(no checks)",[]).append((s,v["family"]))
        seen=set()
        for x in v["viol"] or []:
            if x["kind"] in seen: continue
            seen.add(x["kind"]);k.setdefault(x["kind"],[]).append((s,x["msg"]))
print(f"{p}: {c} runs {time.time()-t0:.1f}s checks {checks} simh {simns/3.6e12:.2f} slowest {mx} fam {dict(fam)}")
print("  faults",dict(faults));print("  counts",dict(counts))
for a,b in k.items():
    print("==",a,len(b))
    for s,m in b[:3]: print("   seed",s,m[:600])
