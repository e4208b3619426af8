import sys; sys.path.insert(0,'/verif/sa'); sys.path.insert(0,'/tmp/w')
from k import *
from c_xform import *
import c_lin
SPECS.update(c_lin.SPECS)
def run(op,n=40,seed=1,dt='Float32'):
    r=O.table[(op,'CPU',dt)]
    K=Kern(P,r.fn,esz=4,live=op in c_lin.SPECS)
    cls=SPECS[op]
    for m in models_for(K,cls,n,seed):
        want=cls.ref(m,K); want=want if isinstance(want,list) else [want]
        try: got=evaluate(K,cls,m)
        except (NoEval,Undecided) as e:
            import traceback; traceback.print_exc(); print(mdesc(m)); return K,m
        for j,((gs,gv),(ws,wv)) in enumerate(zip(got,want)):
            if list(gs)!=list(ws) or not same_lists(gv,wv):
                print(mdesc(m), j, gs,ws, str(gv)[:300],str(wv)[:300]); return K,m
        if len(got)!=len(want): print('count',len(got),len(want),mdesc(m)); return K,m
    return K,None
if __name__=='__main__':
    for o in sys.argv[1:]: run(o)
