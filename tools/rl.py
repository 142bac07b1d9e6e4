import sys,time; sys.path.insert(0,'/verif')
import importlib
from vc.check import RealCtx
m=importlib.import_module('real.'+sys.argv[1])
for f in sys.argv[2:]:
    t=time.time(); rc=RealCtx(f.upper(),'quick',1,[]); getattr(m,f)(rc)
    print(f, rc.evaluations, rc.parts, len(rc.violations), '%.1fs'%(time.time()-t), rc.limits)
    seen=set()
    for v in rc.violations:
        if v['part'] in seen or len(seen)>3: continue
        seen.add(v['part'])
        print('   ', v['part'], v['what'][:300], '\n      E', v['expected'][:400], '\n      G', v['got'][:600])
