import sys,json,collections,time
import os.path; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import dst.check
from dst import boot, run as R
import os
boot.boot()
from dst.props import PROPS
from dst.check import pick_scen, run_seed, Proc, gather, cpus
import gc; gc.collect(); gc.freeze()
prop=sys.argv[1]; n=int(sys.argv[2]); spec=PROPS[prop]
if len(sys.argv)>3: spec=spec.only(sys.argv[3])
base=os.environ.get("BASE","1")
from dst.check import _now
t=_now()
J=int(os.environ.get("J","8")); FROM=int(os.environ.get("FROM","0"))
def body(w):
    def b(emit):
        for i in range(FROM+w,FROM+n,J):
            r=R.fork_run(prop,pick_scen(spec,i),run_seed(base,prop,i)); r['i']=i; r.pop('trace',0); r.pop('log',0); emit(r)
    return b
rs=[]
gather([Proc(body(w),cpus()[w%len(cpus())]) for w in range(J)],lambda r: rs.append(r) and False)
dt=_now()-t
c=collections.Counter(); ex={}
for r in sorted(rs,key=lambda r:r['i']):
    key=(r['scen'],r['status'],r.get('sig') or ((r.get('msg') or '')[-300:] if r['status']!='ok' else ''))
    c[key]+=1; ex.setdefault(key,(r['i'],r.get('msg')))
for k,v in c.most_common(): print(v,k,'i=%d'%ex[k][0],str(ex[k][1])[:250] if k[1]=='violation' else '')
pr=collections.Counter(); fa=collections.Counter()
for r in rs:
    for a in r.get('probes',{}): pr[a]+=1
    for a in r.get('faults',{}): fa[a]+=1
print('probes',dict(pr)); print('faults',dict(fa))
print('max yields %d lines %d' % (max(r.get('yields',0) for r in rs), max(r.get('lines',0) for r in rs)))
print('%.1fs  %.0f runs/s  sim %.0fs steps %.0f'%(dt,n/dt,sum(r.get('sim_ms',0) for r in rs)/1000,sum(r.get('steps',0) for r in rs)/max(1,n)))
top = {}
for r in rs:
    if r.get('yields',0) > top.get(r['scen'],(0,))[0]: top[r['scen']]=(r['yields'],r['i'],r.get('lines'))
print('yields', top)
