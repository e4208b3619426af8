import sys; sys.path.insert(0,'/verif/sa')
from extract import load_raw
from kern import *
P=Program(load_raw())
r=P.by_name[sys.argv[1]][0]
I=Interp(P,kernel_policy()); rets=I.run(r)
for e in I.evs[:40]:
    print(e.kind,e.fn, show(e.objloc)[:80] if isinstance(e.objloc,T) else e.objloc, [show(a)[:200] if isinstance(a,T) else a for a in (e.args or ())], e.loops)
for s,t,e in rets: print('ret',show(t)[:300])
