import sys,re
def z(s):
    p=None
    while p!=s:
        p=s; s=re.sub(r'<[^<>]*>','',s)
    return s.replace('tinytorch::','')
KINDS={'call','write','icall','return','trap','lock','unlock','init'}
VERB='-v' in sys.argv
if VERB: sys.argv.remove('-v')
sys.path.insert(0,'/verif/sa')
from extract import load_raw
from interp import *
from model import *
P=Program(load_raw())
O=Ops(P)
name=sys.argv[1]; W=int(sys.argv[2]) if len(sys.argv)>2 else 220
ops=sys.argv[3].split(',') if len(sys.argv)>3 else ['tinytorch::Tensor::']
rs=P.by_name.get(name) or [r for r in P.funcs.values() if r['fn'].endswith(name)]
lim=int(sys.argv[4]) if len(sys.argv)>4 else 1
for r in rs[:lim]:
    print('==',r['fn'],[(p['n'],p['t'][:60]) for p in r['ps']],r.get('file'),r.get('l'))
    I=Interp(P,Policy(opaque=lambda rec: rec['fn'].startswith(tuple(ops)) or rec.get('_disp')))
    rets=I.run(r)
    for e in I.evs:
        if 'Logger' in e.fn or 'operator<<' in e.fn or (e.kind not in KINDS and not VERB): continue
        print('  ',z(e.kind+' '+(show(e.objloc)+':=' if e.objloc is not None and e.kind in('write','init') else '')+(show(e.obj)+'.' if e.obj is not None else '')+e.fn+'('+', '.join(map(show,e.args or ()))+')')[:W], 'L%d'%e.line(), '|', z(' & '.join(('' if p else '!')+show(t)[:70] for t,p in e.gl[-2:])), ('loops %s'%(e.loops,)) if e.loops else '')
    for s,v,n in rets: print('  RET',z(show(v))[:W],'|',z(' & '.join(('' if p else '!')+show(t)[:70] for t,p in s.gl[-3:])))
    for k,i in (I.loopinfo.items() if VERB else ()): print('  LOOP',k,{a:show(b)[:80] for a,b in i['init'].items()},{a:show(b)[:80] for a,b in i['next'].items()},show(i['cond'])[:100] if i['cond'] is not None else None)
