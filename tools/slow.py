"""slow.py CHECK from to: time of each case"""
import sys, os, time, random
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[V+"/lib",V+"/checks"]
import vp, build, importlib
from concurrent.futures import ThreadPoolExecutor
p=sys.argv[1].upper(); m=importlib.import_module(p.lower()); seed=os.environ.get("VERIF_SEED","1")
sans=getattr(m,"SANS",["asan"]); bins=[build.build(s) for s in sans]
def one(i):
    c=m.gen(random.Random("%s/%s/%d"%(seed,p,i)),i,"quick")
    if c is None: return
    t=time.time(); r=vp.run_cases(bins[i//getattr(m,"BATCH",25)%len(bins)],[c])[0]; t=time.time()-t
    return t,i,c,r
with ThreadPoolExecutor(8) as ex: R=[x for x in ex.map(one,range(int(sys.argv[2]),int(sys.argv[3]))) if x]
R.sort(key=lambda x:-x[0])
for t,i,c,r in R[:15]: print("%.1f"%t,i,getattr(c,"kind",""),getattr(c,"src",""),len(c.lines),r[1].sig if r[1] else "",[e.get("op") for e in (r[0] or [])][-1:])
