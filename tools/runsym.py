import logging; logging.disable(logging.CRITICAL)
import sys,time,traceback,importlib
sys.path.insert(0,'/verif')
mod,pats=sys.argv[1],sys.argv[2:]
C=importlib.import_module('contracts.'+mod)
from vf import solve
for nm,t,f in C.SYM:
    if pats and not any(p in nm for p in pats): continue
    t0=time.time()
    try:
        o=f()
    except BaseException as e:
        print(nm,'EXC',type(e).__name__,str(e)[:300])
        if type(e).__name__ not in('Unsupported',): traceback.print_exc(limit=-5)
        continue
    t1=time.time()
    n0=sum(x.status is not None for x in o)
    solve.solve_all(o,limit=120)
    print(nm,len(o),'paths',o[0].paths if o else 0,'nf',n0,'bad',[(x.name[-60:],x.status) for x in o if x.status!='proved'][:4],'%.1f %.1f'%(t1-t0,time.time()-t1),flush=True)
