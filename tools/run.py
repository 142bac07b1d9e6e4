import sys,time,importlib
sys.path.insert(0,'/verif')
from vc.verify import *
from vc.frontend import Program, sources
mod,fn=sys.argv[1].split('.')
prog=Program(sources(('lib',)+tuple(a for a in sys.argv[3:] if a.startswith('app/'))))
us=getattr(importlib.import_module('contracts.'+mod),fn)()
flt=sys.argv[2] if len(sys.argv)>2 else ''
us=[u for u in us if flt in u.name]
t=time.time()
dbg='-d' in sys.argv or len(us)==1
rs=[run_unit(prog,u,True) for u in us] if dbg else run_units(prog,us)
for r in rs:
    print(r.summary())
    k=0
    for o in r.obls:
        if o['status']!='discharged':
            k+=1
            if k<=12: print('   ',o['status'],o['fn'],'|',o['label'],'|',o['kind'],'|',o['detail'][:400],'|',(o['model'] or '')[:300])
print('%d/%d ok, %.1fs'%(sum(r.status=='ok' for r in rs),len(rs),time.time()-t))
