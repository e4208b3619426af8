import sys; sys.path.insert(0,'/verif/sa')
from extract import load_raw
from kern import *
P=Program(load_raw());O=Ops(P)
r=O.table[(sys.argv[1],'CPU','Float32')].fn
K=Kern(P,r)
for l,i in K.I.loopinfo.items():
    for loc,n in i['next'].items():
        if n is not None and show(loc) in('indices','counter'): print(l,show(loc),'\n   init',show(i['init'][loc]),'\n   next',show(n,depth=99) if 0 else show(n)); print('   cond',show(i['cond']))
        if n is not None and show(loc) in('indices','counter'):
            for x in subterms(n):
                if x.op in('<','<='): print('      <',show(x),[y.op for y in x.a])
