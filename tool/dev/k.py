import sys; sys.path.insert(0,'/verif/sa')
from extract import load_raw
from kern import *
P=Program(load_raw()); O=Ops(P)
def dumpk(op,dt='Float32',W=500):
    r=O.table[(op,'CPU',dt)]
    K=Kern(P,r.fn,esz=4,live=True)
    for s in K.stores:
        print('*',show(s.root)[:60], s.e.loops, 'L%d'%s.e.line(), s.err)
        if not s.err: print('   addr',show(s.addr)[:W]); print('   val',show(s.val)[:W]); print('   nest',[(l,show(n)[:80]) for l,n in s.nest]); print('   conds',[(show(c)[:80],p) for c,p in s.conds])
    print([show(x[1])[:200] for x in K.rets])
    return K
if __name__=='__main__':
    for o in sys.argv[1:]:
        a=o.split('/'); print('=====',o); dumpk(*a)
