import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import importlib, check
name=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
F=importlib.import_module('fam_'+name)
w=workdir('t')
t=time.time()
for m,c,n in F.mcs(tier,''):
    out,st=tlc(w,m,c,workers=6,timeout=120); print(st)
segs=[]
for g in F.gens(tier,''):
    out,st=tlc(w,g[0],g[1],timeout=100); es=edges_of(out); wk=tour(es,60,random.Random(1)); print(st,len(es),len(wk),sum(map(len,wk))); segs+=[g[2](x) for x in wk]
segs+=F.scripts(tier,1,'')
v=sys.argv[3] if len(sys.argv)>3 else F.variants(tier)[0]
if hasattr(F,'runs_on'): segs=[x for x in segs if F.runs_on(x,v)]
bd=B.build(v,[F.DRIVER]); print('prep',time.time()-t); t=time.time()
parts=[sum(segs[i::4],[]) for i in range(4)]
with cf.ThreadPoolExecutor(4) as ex: evs=list(ex.map(lambda ls: run_driver(w,bd+'/'+F.DRIVER,ls),parts))
print('driver',time.time()-t)
lines=sum(parts,[]); off=0; allev=[]
for p,es in zip(parts,evs):
    for e in es: e['_l']+=off
    allev+=es; off+=len(p)
bad,st=validate(w,F.TRACE[0],F.TRACE[1],allev); print(st)
seen=collections.Counter()
for i,p,why in bad:
    seen[(p,why)]+=1
    if seen[(p,why)]<=2:
        seg=check.segment_of(lines,allev[i]['_l']); print(p,why,'\n   ','\n    '.join(x[:200] for x in seg[-4:]),'\n   ',{k:v for k,v in allev[i].items() if k not in('recs',)})
print(seen)
shutil.rmtree(w)
