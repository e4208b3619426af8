"""Results of operators: tensors of their own, without gradient tracking, with the element type the operator defines."""
from kern import *
from model import *
from base import *

CREATE = {'empty': 1, 'ones': 1, 'zeros': 1, 'scalar': 1, 'full': 2, 'rand': 1, 'randn': 1, 'uniform': 3, 'bernoulli': 2}
LIKE = {'onesLike': 1, 'zerosLike': 1, 'emptyLike': 1, 'fullLike': 2}
BOOL = {'eq', 'ne', 'lt', 'le', 'gt', 'ge'}
IDX = {'argmin', 'argmax', 'multinomial'}
DT = ['Float32', 'Float16', 'BFloat16', 'Int32', 'Int64', 'Bool']
IDX2 = {'minOnDim', 'maxOnDim', 'sort', 'topk'}


def peel(t):
    while t.op in ('addr', 'deref', 'addrof', 'mut', 'mutd'): t = t.a[0]
    return t


class Fresh:
    def __init__(self, P, rec):
        self.P, self.rec = P, rec
        self.I = I = Interp(P, kernel_policy())
        self.rets = I.run(rec)
        self.memo = {}

    def tensor_params(self):
        return [(mk('param', i, p['n']), p) for i, p in enumerate(self.rec['ps']) if 'tinytorch::Tensor' in p['t'] and 'TensorImpl' not in p['t']]

    def opts(self, o):
        """(gradient bit, element type or None, base tensor) of an options term"""
        o = peel(o)
        if o.op == 'rec':
            g, d, b = self.opts(o.a[0])
            for k, v in o.a[1]:
                if k == 'requiresGrad_': g = 'no' if cval(v) in (0, False) else 'set' if cval(v) in (1, True) else None
                if k == 'dtype_': d = v
            return g, d, b
        if o.op == 'call' and o.a[0].split('::')[-1] == 'options' and o.a[1] is not None:
            t = peel(o.a[1])
            g, d, b = self.val(t, True)
            return g, d, b
        if o.op == 'new' and o.a[0].endswith('Options') and not o.a[1]: return 'no', mk('default'), None
        return None, None, None

    def val(self, t, keep=False):
        """gradient bit of a tensor term: 'no' | a reason why it may carry gradient state | None unknown; element type; base"""
        t = peel(t)
        if t.op == 'phi':
            a, b = self.val(t.a[1], keep), self.val(t.a[2], keep)
            if a[0] == b[0] == 'no': return 'no', a[1] if a[1] is b[1] else None, a[2] if a[2] is b[2] else None
            for x in (a, b):
                if x[0] not in ('no', None): return x
            return None, None, None
        if t.op in ('param', 'this'): return 'is its argument %s itself' % (t.a[1] if t.op == 'param' else ''), None, t
        if t.op == 'elem' and peel(t.a[0]).op == 'param': return 'is an element of its argument itself', None, t
        if t.op == 'fld' and t.a[1] in ('first', 'second'):
            b = peel(t.a[0])
            if b.op == 'param': return 'is part of its argument', None, t
            return self.val(b)
        if t.op == 'new':
            if t.a[0] == 'tinytorch::Tensor':
                n = len(t.a[1])
                if n == 0: return 'no', None, None
                if n in (2, 4) and isinstance(t.a[1][1], T): return self.made(t.a[1][1])
                if n == 1 and isinstance(t.a[1][0], T): return self.val(t.a[1][0])
            return None, None, None
        if t.op == 'call':
            n = t.a[0].split('::')[-1].split('<')[0]
            if t.a[0].startswith(OPNS): return 'no', None, None
            if t.a[0].startswith('tinytorch::Tensor::'):
                if t.a[1] is None and n in CREATE:
                    if len(t.a[2]) <= CREATE[n]: return 'no', mk('default'), None
                    return self.made(t.a[2][CREATE[n]])
                if t.a[1] is None and n in LIKE:
                    if len(t.a[2]) > LIKE[n] and isinstance(t.a[2][LIKE[n]], T) and self.opts(t.a[2][LIKE[n]])[0] is not None: return self.made(t.a[2][LIKE[n]])
                    if len(t.a[2]) > LIKE[n] and not self.nullopt(t.a[2][LIKE[n]]): return None, None, None
                    g, d, b = self.val(t.a[2][0])
                    return 'no' if g == 'no' else 'takes over requiresGrad of %s' % show(t.a[2][0])[:40] if g else None, d, peel(t.a[2][0])
                if n == 'detach': return ('no',) + self.val(t.a[1])[1:]
                if n == 'clone':
                    g, d, b = self.val(t.a[1])
                    if g == 'no' or g is None: return g, d, b
                    s = self.setgrad(t)
                    return s or 'is a copy that takes over requiresGrad of %s' % show(t.a[1])[:40], d, b
            return None, None, None
        return None, None, None

    def other(self, b, tp, dt):
        """is b an argument whose elements are read as another type than the operator's"""
        if b is None or b.op != 'param' or b is tp[0][0] or dt not in CTYPE: return False
        ty = set()
        for e in self.I.evs:
            if e.kind == 'call' and '::dataPtr<' in e.fn and isinstance(e.obj, T) and peel(e.obj) is b: ty.add(strip_cvref(e.fn.split('::dataPtr<')[1].rstrip('>')))
        return bool(ty) and CTYPE[dt] not in ty

    def nullopt(self, o): return 'nullopt' in show(o)

    def made(self, o):
        g, d, b = self.opts(o)
        if g in ('no', None): return g, d, b
        if g == 'set': return 'is created with requiresGrad set', d, b
        return 'takes over requiresGrad of %s' % (show(b)[:40] if b is not None else 'its input'), d, b

    def setgrad(self, t):
        for e in self.I.evs:
            if e.kind == 'call' and e.fn.endswith('::setRequiresGrad') and e.args:
                o = [x for x in (e.obj, e.objloc) if isinstance(x, T)]
                if any(t is peel(x) or contains(x, t) for x in o) or any(x.op == 'V' for x in o):
                    return 'no' if cval(e.args[0]) in (0, False) else None
            if e.kind == 'write' and isinstance(e.objloc, T) and 'requiresGrad_' in show(e.objloc): return None
        return False


def parts(F, t):
    """returned tensors of a result term: [(position, term)]"""
    t = peel(t)
    if t.op == 'new' and t.a[0].startswith('std::pair') and len(t.a[1]) == 2: return [(0, t.a[1][0]), (1, t.a[1][1])]
    if t.op == 'phi':
        return parts(F, t.a[1]) + parts(F, t.a[2])
    if t.op == 'list': return [('e', x) for x in t.a[0]]
    if t.op == 'hav' and 'vector' in F.rec['ret'] or t.op in ('hav', 'app') and 'TensorList' in F.rec['ret']:
        out = []
        for e in F.I.evs:
            if e.kind == 'call' and e.fn.split('::')[-1].split('<')[0] in ('push_back', 'emplace_back', 'pushBack', 'emplaceBack') and e.args and 'Tensor' in e.fn:
                out += [('e', a) for a in e.args if isinstance(a, T)][:1]
        return out
    return [(0, t)]


def check_fresh(res):
    P = res.p
    O = Ops(P)
    res.rule = 'abstract evaluation of the gradient bit, identity and element type of every returned tensor'
    kern = forw = typed = 0
    seen = set()
    for (op, dev, dt), r in sorted(O.table.items(), key=lambda kv: str(kv[0])):
        if dev not in ('CPU', None) or 'Tensor' not in r.fn['ret'] or r.fn['ret'].strip().endswith('&'): continue
        with res.instance('%s/%s' % (op, dt)):
            F = Fresh(P, r.fn)
            tp = F.tensor_params()
            if not tp: continue
            kern += 1
            res.fn(r.fn)
            for st, t, e in F.rets:
                for pos, x in parts(F, t):
                    g, d, b = F.val(x)
                    key = 'detached/%s/%s/%s' % (op, dt, pos)
                    if g is None:
                        res.und('%s: %s' % (key, show(x)[:80]))
                        continue
                    res.check(g == 'no', key, loc_of(r.fn), '%s: the returned tensor %s' % (op, g))
                    if d is None and b is None: continue
                    want = 'Bool' if op in BOOL else 'Int64' if op in IDX or op in IDX2 and pos == 1 else None
                    typed += 1
                    if d is not None:
                        dn = d.a[0].split('::')[-1] if d.op == 'enum' else DT[cval(d)] if d.op == 'c' and cval(d) in range(len(DT)) else None
                        if d.op == 'default': dn = 'Float32'
                        if dn is None: continue
                        if dn != (want or dt):
                            if want is None and d.op == 'default': continue
                            res.bad('type/%s/%s/%s' % (op, dt, pos), loc_of(r.fn), '%s of %s tensors returns element type %s' % (op, dt, dn))
                        else: res.ok('type %s' % key)
                    elif want is None and F.other(b, tp, dt): res.bad('type/%s/%s/%s' % (op, dt, pos), loc_of(r.fn), '%s returns the element type of %s, which holds another type than the computed elements' % (op, show(b)))
                    elif want is not None and dt != want: res.bad('type/%s/%s/%s' % (op, dt, pos), loc_of(r.fn), '%s returns the element type of its input instead of %s' % (op, want))
                    else: res.ok('type %s' % key)
    for n, l in sorted(P.by_name.items()):
        if not (n.startswith('tinytorch::function::') and n.endswith('::forward')): continue
        for rec in l:
            if 'Tensor' not in rec['ret'] or rec['ret'].strip().endswith('&'): continue
            cls = n.split('::')[-2]
            with res.instance('forward/%s' % cls):
                F = Fresh(P, rec)
                if not F.tensor_params(): continue
                forw += 1
                res.fn(rec)
                for st, t, e in F.rets:
                    for pos, x in parts(F, t):
                        g, d, b = F.val(x)
                        key = 'forward/%s/%s' % (cls, pos)
                        if g is None: res.und('%s: %s' % (key, show(x)[:80]))
                        else: res.check(g == 'no', key, loc_of(rec), '%s: the returned tensor %s' % (cls, g))
    res.floor('operators', kern, 150)
    res.floor('forwards', forw, 50)
    res.floor('typed', typed, 60)
