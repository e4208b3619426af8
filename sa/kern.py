"""Loop summaries: closed forms of the values computed by the loop nests of a kernel.

Every loop-carried value is solved as a recurrence (induction, sum, product, maximum, mixed-radix digits); every store into a tensor
buffer becomes  buffer[address] = value  with address and value in terms of iteration counters, tensor sizes and loads.
Nothing is unrolled or evaluated; recurrences outside the solved shapes raise Unk."""
from model import *
import alg
from alg import Undecided
from c_elem import RED, pdata, pdata_loc, red_opaque_plain as red_opaque


class Unk(Undecided):
    pass


def kernel_policy(extra=(), inline=()):
    pre = KERNEL_OPAQUE + tuple(extra)
    return Policy(opaque=lambda rec: (rec['fn'].startswith(pre) and not rec['fn'].startswith(inline or ('\0',))) or red_opaque(rec) or rec.get('_disp'))


def it(lid): return mk('it', lid)


FLT = {'exp', 'log', 'sqrt', 'pow', 'sin', 'cos', 'tanh', 'numeric_limits'}


def isflt(t):
    """does this term denote a floating value (decides the meaning of '/')"""
    if t.op in ('tofloat', 'ld', 'fcast'): return True
    if t.op == 'c': return isinstance(t.a[0], float) or t.a[1] == 'flt'
    if t.op in ('+', '-', '*', '/', 'neg', 'max', 'min'): return any(isflt(x) for x in t.a)
    if t.op == 'phi': return isflt(t.a[1]) or isflt(t.a[2])
    if t.op in ('SUM', 'PROD', 'MAX', 'MIN'): return isflt(t.a[2]) or (len(t.a) > 3 and isinstance(t.a[3], T) and isflt(t.a[3]))
    if t.op == 'call':
        n = t.a[0]
        if alg.stdfn(t): return alg.stdfn(t) not in ('abs', 'max', 'min') or any(isflt(x) for x in t.a[2])
        return n.endswith('::item') or n.endswith('::to')
    if t.op == 'param': return t in FPARAM
    if t.op in ('fld', 'atom'): return t in FPARAM
    return False


FPARAM = set()


class Kern:
    def __init__(self, P, rec, policy=None, args=None, esz=None, live=False):
        self.P, self.rec, self.esz, self.live = P, rec, esz, live
        self.I = I = Interp(P, policy or kernel_policy())
        self.rets = I.run(rec) if args is None else I.run(rec, args=args)
        self.ps = [mk('param', i, p['n']) for i, p in enumerate(rec['ps'])]
        for p, d in zip(self.ps, rec['ps']):
            ty = strip_cvref(d['t'])
            if ty in ('float', 'double', 'tinytorch::Half', 'tinytorch::BFloat16'): FPARAM.add(p)
        self.lctx = {}
        for e in I.evs:
            if e.kind == 'loop': self.lctx[e.extra] = e.loops[:-1] if e.loops and e.loops[-1] == e.extra else e.loops
        self.memo = {}
        self.busy = set()
        self.tripm = {}
        self.steps = {}
        self.alias = {}
        if live: self.nonempty()
        self.sames()
        self.sinks()

    # ---- tensors and sizes
    def root(self, t):
        t0 = t
        while True:
            if t.op == 'mut' or t.op == 'mutd': t = t.a[0]
            elif t.op == 'deref' and t.a[0].op == 'addr': t = t.a[0].a[0]
            elif t.op == 'new' and t.a[0] == 'tinytorch::Tensor' and len(t.a[1]) == 1 and t.a[1][0].op in ('call', 'param', 'mut', 'new'): t = t.a[1][0]
            elif t.op == 'call' and t.a[0].endswith(('Tensor::operator=',)) and t.a[2]: t = t.a[2][0]
            else: return t

    def tens(self, o, ctx):
        """tensor with the position in its list resolved"""
        o = self.root(o)
        if o.op == 'elem':
            i = self.res(o.a[1], ctx)
            o = self.root(self.res(o, ctx))
            # tensors created by the iterations of a loop are distinct even if their creation does not mention the loop counter
            return marked(o, i) if i.op == 'it' else o
        if o.op == 'hav':
            if o.a[1] == 'idx': return o
            raise Unk('tensor variable changed in a loop')
        return o

    def nonempty(self):
        """a list asserted not to be empty is not the empty alternative of its choice"""
        for e in self.I.evs:
            for t, p in e.gl:
                if not p and t.op == 'call' and t.a[0].endswith('::empty') and t.a[1] is not None and t.a[1].op == 'phi':
                    x = t.a[1]
                    em = [y.op == 'new' and not y.a[1] for y in x.a[1:3]]
                    if em[0] != em[1]: self.alias[x] = x.a[2] if em[0] else x.a[1]

    def sames(self):
        """tensors with the same shape (constructed from each other's shape, or asserted equal)"""
        self.shp = {}
        for e in self.I.evs:
            for t, p in e.gl:
                if p and t.op == '==' and all(self.shapecall(x) is not None for x in t.a):
                    a, b = [self.shapecall(x) for x in t.a]
                    self.union(a, b)
        self.dimrep = {}
        for e in self.I.evs:
            for t, p in e.gl:
                if p and t.op == '==' and all(x.op == 'call' and x.a[0].endswith('Tensor::dim') and x.a[1] is not None for x in t.a):
                    a, b = [self.shapeof(x.a[1]) for x in t.a]
                    a, b = self.dimrep.get(a, a), self.dimrep.get(b, b)
                    if a is b or has_hav(a) or has_hav(b): continue
                    if self.prio(b) < self.prio(a): a, b = b, a
                    for k in [k for k, v in self.dimrep.items() if v is b] + [b]: self.dimrep[k] = a

    def find(self, t):
        while t in self.shp: t = self.shp[t]
        return t

    def union(self, a, b):
        a, b = self.shapeof(a), self.shapeof(b)
        if a is b: return
        # prefer parameters as representatives, first ones first
        if self.prio(b) < self.prio(a): a, b = b, a
        self.shp[b] = a

    def prio(self, t):
        return (0, t.a[0]) if t.op == 'param' else (1, t.id)

    def shapecall(self, x):
        while x.op in ('mut', 'cast'):
            if x.op == 'mut' and x.a[0].op == 'new': return None        # a list changed in a way that is not modelled
            x = x.a[0] if x.op == 'mut' else x.a[-1]
        if x.op == 'call' and x.a[0].endswith(('Tensor::shape', 'Tensor::sizes')) and x.a[1] is not None and not x.a[2]: return self.root(x.a[1])
        if x.op == 'tcall' and x.a[0] in ('shape', 'sizes') and not x.a[2]: return self.root(x.a[1])
        if x.op == 'new' and len(x.a[1]) == 1 and isinstance(x.a[1][0], T): return self.shapecall(x.a[1][0])
        return None

    def shapearg(self, t):
        """shape expression a freshly created tensor was given, or None"""
        t = self.root(t)
        if t.op == 'new' and t.a[0] == 'tinytorch::Tensor' and t.a[1]: return t.a[1][0]
        if t.op == 'call' and t.a[1] is None and t.a[0].startswith('tinytorch::Tensor::') and t.a[2]:
            n = t.a[0].split('::')[-1]
            if n in ('empty', 'zeros', 'ones', 'full', 'rand', 'randn'): return t.a[2][0]
            if n in ('emptyLike', 'zerosLike', 'onesLike', 'fullLike'): return mk('call', 'tinytorch::Tensor::shape', t.a[2][0], (), 0)
        if t.op == 'call' and t.a[1] is not None and t.a[0].split('::')[-1] in ('clone', 'detach'):
            return mk('call', 'tinytorch::Tensor::shape', t.a[1], (), 0)
        return None

    def shapeof(self, t):
        """representative tensor with the same shape"""
        t = self.find(self.root(t))
        for _ in range(8):
            s = self.shapearg(t)
            if s is None: return t
            o = self.shapecall(s)
            if o is None: return t
            t = self.find(o)
        return t

    # ---- loops
    def trip(self, lid):
        r = self.tripm.get(lid)
        if r is None:
            self.tripm[lid] = 'busy'
            try:
                r = self.trip_(lid)
            except Unk as x:
                r = x
            self.tripm[lid] = r
        if r == 'busy': raise Unk('cyclic loop bound')
        if isinstance(r, Exception): raise r
        return r

    def counter(self, h, lid):
        """(init, step) of an induction value of loop lid"""
        info = self.I.loopinfo[lid]
        if h.op != 'hav' or h.a[0] != lid: return None
        i, n = self.srcs(h)
        if i is None or n is None: return None
        st = step_of(n, h)
        if st is None: return None
        return self.res(i, self.lctx.get(lid, ())), st

    def srcs(self, h):
        """(init, next) terms of a loop-carried value"""
        info = self.I.loopinfo.get(h.a[0])
        loc = h.a[2]
        if info is None or not isinstance(loc, T): return None, None
        i, n = info['init'].get(loc), info['next'].get(loc)
        if len(h.a) == 4:
            if i is not None: i = self.I.field_of(i, h.a[3])
            if n is not None: n = self.I.field_of(n, h.a[3])
        return i, n

    def trip_(self, lid):
        info = self.I.loopinfo[lid]
        if not info.get('brks'): return self.tripc(lid)
        if info['brks'] != 1 or 'brkgl' not in info: raise Unk('loop with break')
        N = self.tripc(lid)
        c = info['cond']
        lc = [c] + list(c.a if c is not None and c.op in ('not', 'and') else ())
        self.tripm[lid] = N
        try:
            ls = []
            for t, p in info['brkgl'][0]:
                if t in lc or t.op == 'inrange' or not any(x.op == 'hav' and x.a[0] == lid for x in subterms(t)): continue
                r = self.res(t, self.lctx.get(lid, ()) + (lid,))
                ls.append(r if p else mk('not', r))
        finally:
            self.tripm.pop(lid, None)
        if not ls: raise Unk('loop with break')
        return mk('TRIPB', lid, N, mk('list', tuple(renorm(subst(x, {it(lid): it(lid + "'")})) for x in ls)))

    def tripc(self, lid, c=None):
        info = self.I.loopinfo[lid]
        ctx = self.lctx.get(lid, ())
        c = c or info['cond']
        if c is None: raise Unk('no loop condition')
        if c.op == 'inrange':
            self.steps[lid] = 1
            return self.lenof(self.res(info['range'], ctx))
        if c.op == 'and':
            if not self.live: raise Unk('compound loop condition')
            ns = [self.tripc(lid, x) for x in c.a]
            n = ns[0]
            for x in ns[1:]: n = mk('min', n, x)
            return n
        ng_ = False
        if c.op == 'not': c, ng_ = c.a[0], True
        if ng_ and c.op == '<': c, ng_ = mk('<=', c.a[1], c.a[0]), False
        elif ng_ and c.op == '<=': c, ng_ = mk('<', c.a[1], c.a[0]), False
        if c.op not in ('<', '<=', '==') or (c.op == '==' and not ng_): raise Unk('loop condition %s' % show(c)[:80])
        for k in (0, 1):
            h, b = c.a[k], c.a[1 - k]
            off = 0
            if h.op in ('+', '-') and len(h.a) == 2:      # i + c < n
                if cval(h.a[1]) is not None and h.a[0].op == 'hav': off, h = (cval(h.a[1]) if h.op == '+' else -cval(h.a[1])), h.a[0]
                elif h.op == '+' and cval(h.a[0]) is not None and h.a[1].op == 'hav': off, h = cval(h.a[0]), h.a[1]
            ct = self.counter(h, lid)
            if ct is None: continue
            i0, st = ct
            B = self.res(b, ctx + (lid,))
            if has_it(B, lid): raise Unk('loop bound varies')
            up = (k == 0)       # h on the left of < / <=
            if st > 0 and (up or c.op == '=='):
                n = binop('-', B, i0)
                if off: n = binop('-', n, C(off))
                if c.op == '<=': n = binop('+', n, C(1))
            elif st < 0 and (not up or c.op == '=='):
                n = binop('-', i0, B)
                if off: n = binop('+', n, C(off))
                if c.op == '<=': n = binop('+', n, C(1))
            else: continue
            self.steps[lid] = 1 if st > 0 else -1
            n = intnorm(n)
            if abs(st) == 1: return n
            return mk('cdiv', n, C(abs(st)))
        raise Unk('loop condition %s' % show(c)[:80])

    def pos(self, lid):
        """iteration position in ascending order of the loop's counter"""
        n = self.trip(lid)
        if self.steps.get(lid, 1) > 0: return it(lid)
        return binop('-', binop('-', n, C(1)), it(lid))

    # ---- resolution
    def res(self, t, ctx, seq=None):
        key = (t, ctx)
        r = self.memo.get(key)
        if r is not None: return r
        if key in self.busy: raise Unk('cyclic value')
        self.busy.add(key)
        try:
            r = self.res_(t, ctx)
        finally:
            self.busy.discard(key)
        self.memo[key] = r
        return r

    def rt(self, y, ctx):
        if isinstance(y, T): return self.res(y, ctx)
        if isinstance(y, tuple): return tuple(self.rt(z, ctx) for z in y)
        return y

    def res_(self, t, ctx):
        if t in self.alias: t = self.alias[t]
        op = t.op
        if op == 'elem' and t.a[0].op == 'param' and isinstance(t.a[1], T): return mk('elem', t.a[0], self.res(t.a[1], ctx))
        if op in ('c', 'param', 'enum', 'atom', 'it', 'null', 'str', 'this', 'glob', 'fnref', 'self'): return t
        if op == 'hav':
            if t.a[1] == 'idx' and t.a[2] == 0: return it(t.a[0])
            return self.closed(t, ctx)
        if op == 'elem':
            p = self.bufroot(t.a[0])
            if p is not None: return mk('ld', self.tens(p, ctx), self.addr(self.res(t.a[1], ctx)))
            p = self.bufoff(t.a[0])
            if p is not None: return mk('ld', self.tens(p[0], ctx), self.addr(binop('+', self.res(p[1], ctx), self.res(t.a[1], ctx))))
            s = self.shapecall(t.a[0])
            if s is not None:
                s = self.shapeof(self.tens(s, ctx))
                if t.a[1].op == 'last': return mk('sz', s, intnorm(binop('-', self.dimt(s), C(1))))
                return mk('sz', s, intnorm(self.res(t.a[1], ctx)))
            if t.a[0].op == 'call' and t.a[0].a[0].endswith('::strides') and t.a[0].a[1] is not None: return mk('strd', self.shapeof(self.tens(t.a[0].a[1], ctx)), self.res(t.a[1], ctx))
        if op == 'deref':
            p = pdata(t.a[0])
            if p is not None and p.op != 'unk': return mk('ld', self.tens(p, ctx), C(0))
            off = ptr_off(t.a[0])
            if off is not None: return mk('ld', self.tens(off[0], ctx), self.addr(self.res(off[1], ctx)))
        if op == 'call' and t.a[1] is not None:
            n = t.a[0].split('::')[-1].split('<')[0]
            if t.a[0].startswith('tinytorch::Tensor::') or t.a[0].startswith('tinytorch::TensorImpl::'):
                o = self.tens(t.a[1], ctx)
                if n in ('shape', 'size') and len(t.a[2]) == 1: return mk('sz', self.shapeof(o), self.res(t.a[2][0], ctx))
                if n == 'stride' and len(t.a[2]) == 1: return mk('strd', self.shapeof(o), self.res(t.a[2][0], ctx))
                if n == 'dim' and not t.a[2]: return self.dimt(o)
                if n == 'numel' and not t.a[2]: return mk(n, self.shapeof(o))
                if n == 'item': return mk('ld', o, C(0))
                return mk('tcall', n, o, self.rt(t.a[2], ctx))
            s = self.shapecall(t.a[1])
            if s is not None:
                s = self.shapeof(self.tens(s, ctx))
                if n == 'size': return self.dimt(s)
                if n == 'back': return mk('sz', s, intnorm(binop('-', self.dimt(s), C(1))))
                if n == 'front': return mk('sz', s, C(0))
            elif n == 'size' and not t.a[2] and ('ArrayView<' in t.a[0] or 'SmallVector<' in t.a[0] or 'vector<' in t.a[0]):
                return self.lenof(self.res(t.a[1], ctx))
            if n == 'operator float': return self.res(t.a[1], ctx)
        if op == 'new' and (t.a[0] in RED or t.a[0] == 'tinytorch::Scalar') and len(t.a[1]) == 1: return self.res(t.a[1][0], ctx)
        if op == 'call' and t.a[1] is None and t.a[0].startswith('tinytorch::operator'):
            o, a = t.a[0][len('tinytorch::operator'):], t.a[2]
            if o in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=') and len(a) == 2:
                x, y = self.res(a[0], ctx), self.res(a[1], ctx)
                return mk('/', mk('tofloat', x), y) if o == '/' else binop(o, x, y)
            if o == '-' and len(a) == 1: return mk('neg', self.res(a[0], ctx))
        if op in ('cast', 'fcast') and isinstance(t.a[-1], T): return self.res(t.a[-1], ctx)
        if op == 'phi':
            x = [self.res(y, ctx) for y in t.a]
            d = normdim(*x)
            if d is not None: return d
            return phi(self.rangecond(x[0]), x[1], x[2])
        if op == 'fld':
            b = self.res(t.a[0], ctx)
            if b.op == 'rec':
                for k, v in b.a[1]:
                    if k == t.a[1]: return v
            return mk('fld', b, t.a[1])
        if op in ('mut', 'mutd'): return self.res(t.a[0], ctx)
        a = tuple(self.rt(y, ctx) for y in t.a)
        if op == 'elem':
            if a[0].op == 'ld': return mk('ld', a[0].a[0], self.addr(binop('+', a[0].a[1], a[1])))
            d = self.listelem(a[0], a[1])
            if d is not None: return d
        if op == '%':
            d = self.digit(a[0], a[1])
            if d is not None: return d
        if op == '/' and len(a) == 2:
            d = self.digit3(a[0], a[1])
            if d is not None: return d
            d = self.digit2(a[0], a[1])
            if d is not None: return d
        if op in ('+', '-', '*', '/', '%', '<', '<=', '==') and len(a) == 2: return binop(op, a[0], a[1])
        return t if a == t.a else mk(op, *a)

    def digit(self, x, r):
        """coordinate of a linear index: x / stride(d) % size(d), or the digit of a mixed-radix decomposition over all dimensions"""
        if r.op != 'sz': return None
        t, d = r.a
        if x.op == '/' and x.a[1].op == 'strd' and x.a[1].a[0] is t and intnorm(x.a[1].a[1]) is intnorm(d): return mk('coord', x.a[0], t, intnorm(d))
        if x.op == '/' and x.a[1].op == 'PROD' and suffix(x.a[1], t, d): return mk('coord', x.a[0], t, intnorm(d))
        if intnorm(binop('-', binop('-', mk('dim', t), C(1)), d)) is C(0): return mk('coord', x, t, intnorm(d))
        return None

    def listelem(self, l, i):
        if i.op == 'last': i = intnorm(binop('-', self.lenof(l), C(1)))
        """element of a list term"""
        if l.op == 'SCAT':
            lid, N, ix, val = l.a[0], l.a[1], l.a[2], l.a[3]
            inr = i.op == 'it' and self.tripn(i.a[0]) is intnorm(N) or cval(i) is not None and cval(N) is not None and 0 <= cval(i) < cval(N)
            if ix is it(lid) and not inr and self.zeros(l.a[4].a[1] if l.a[4].op == 'STALE' and l.a[4].a[0] is N else l.a[4]): return phi(mk('<', i, N), self.sufp(renorm(subst(val, {it(lid): i}))), C(0))
            if not inr: return None
            if ix is it(lid): return self.sufp(renorm(subst(val, {it(lid): i})))
            if intnorm(binop('+', ix, it(lid))) is intnorm(binop('-', N, C(1))): return self.sufp(renorm(subst(val, {it(lid): intnorm(binop('-', binop('-', N, C(1)), i))})))
        if l.op == 'FILL': return l.a[1]
        if l.op == 'IOTA': return binop('+', l.a[1], i)
        if l.op == 'new' and len(l.a[1]) == 2 and l.a[0].startswith(('tinytorch::SmallVector<', 'std::vector<', 'tinytorch::ArrayView<')): return l.a[1][1]
        if l.op == 'LCPY' and i.op == 'it' and intnorm(l.a[2]) is self.tripn(i.a[0]): return self.listelem(l.a[1], i) or mk('elem', l.a[1], i)
        if l.op == 'st':
            c = binop('==', intnorm(l.a[1]), intnorm(i))
            c = self.rangecond(c)
            if c.op == 'c': return l.a[2] if c.a[0] else self.elemof(l.a[0], i)
            return phi(c, l.a[2], self.elemof(l.a[0], i))
        if l.op == 'ODO': return self.dig(l, i)
        if l.op == 'list' and isinstance(cval(i), int) and 0 <= cval(i) < len(l.a[0]): return l.a[0][cval(i)]
        s = self.shapecall(l)
        if s is not None: return mk('sz', self.shapeof(s), intnorm(i))
        return None

    def dimt(self, o):
        o = self.shapeof(o)
        return mk('dim', self.dimrep.get(o, o))

    def lenof(self, l):
        while l.op in ('mut', 'mutd'): l = l.a[0]
        if l.op == 'tcall' and l.a[0] in ('shape', 'strides', 'sizes'): return self.dimt(l.a[1])
        if l.op == 'list': return C(len(l.a[0]))
        if l.op == 'new' and len(l.a[1]) == 2 and isinstance(l.a[1][0], T): return l.a[1][0]
        if l.op == 'new' and len(l.a[1]) == 1 and isinstance(l.a[1][0], T):
            s = self.shapecall(l.a[1][0])
            if s is not None: return self.dimt(s)
            return l.a[1][0] if l.a[1][0].op in ('dim', 'len', 'c') else self.lenof(l.a[1][0])
        if l.op in ('st', 'FILL', 'IOTA', 'REV', 'LCPY'): return self.lenof(l.a[0])
        if l.op == 'RESZ': return l.a[1]
        return mk('len', l)

    def zeros(self, l):
        while l.op in ('mut', 'mutd'): l = l.a[0]
        return l.op in ('zero',) or l.op == 'rec' and not l.a[1] or l.op == 'new' and (not l.a[1] and 'DimArray' in l.a[0] or len(l.a[1]) == 2 and cval(l.a[1][1]) == 0) or cval(l) == 0

    def elemof(self, l, i): return self.listelem(l, i) or mk('elem', l, i)

    def rangecond(self, c):
        """decides comparisons of positions by the ranges of the counters (0 <= it < trip count)"""
        if c.op == 'not':
            r = self.rangecond(c.a[0])
            return neg(r) if r.op == 'c' else c
        if c.op not in ('==', '<', '<='): return c
        x, y = c.a
        for sgn in (1, -1):
            p = ipoly(binop('-', y, x) if sgn == 1 else binop('-', x, y))
            # upper bounds: it(l) = N - 1 - (something >= 0)
            for _ in range(3):
                m = next((m for m, v in p.items() if v < 0 and len(m) == 1 and m[0].op == 'it'), None)
                if m is None: break
                v = p[m]
                n = self.tripn(m[0].a[0])
                if n is None: break
                q = dict(p)
                del q[m]
                for mm, w in ipoly(binop('-', n, C(1))).items():
                    q[mm] = q.get(mm, 0) + v * w
                    if not q[mm]: del q[mm]
                u = (mk('slack', m[0]),)
                q[u] = q.get(u, 0) - v
                p = q
            low = p.get((), 0)
            if all(v > 0 and all(nonneg(z) for z in m) for m, v in p.items() if m):
                if low > 0:
                    if c.op == '==': return C(0, 'bool')
                    return C(1 if sgn == 1 else 0, 'bool')
                if low == 0 and c.op == '<=' and sgn == 1: return C(1, 'bool')
                if low == 0 and c.op == '<' and sgn == -1: return C(0, 'bool')
        return c

    def tripn(self, lid):
        try:
            return intnorm(self.trip(lid)) if lid in self.I.loopinfo else None      # bound variables of solved sums have no loop of their own
        except Undecided:
            return None

    def sufp(self, p):
        """suffix products of the sizes are the strides"""
        def f(x):
            if x.op != 'PROD' or x.a[2].op != 'sz': return None
            t, j = x.a[2].a
            b = it(x.a[0])
            n = intnorm(x.a[1])
            d = intnorm(binop('-', binop('-', self.dimt(t), C(1)), n))
            j = intnorm(j)
            if j is intnorm(binop('+', binop('+', d, C(1)), b)) or j is intnorm(binop('-', binop('-', self.dimt(t), C(1)), b)): return mk('strd', t, d)
            return None
        return rewrite(p, f)

    def dig(self, o, i):
        """digit i of a mixed-radix counter"""
        lid, k, b, n, body = o.a
        B = renorm(subst(body, {it(b): i}))
        if B.op == 'sz' and B.a[1] is intnorm(i) and (self.dimt(B.a[0]) is intnorm(n) or self.szlen(B.a[0]) is intnorm(n)): return mk('coord', k, B.a[0], intnorm(i))
        for t in self.fresh():
            try:
                if self.szx(t, i) is not None and same_int(self.szx(t, i), B): return mk('coord', k, t, intnorm(i))
            except Undecided:
                continue
        return mk('dig', k, b, n, body, i)

    def szlen(self, t):
        a = self.shapearg(t)
        if a is None: return None
        try:
            return intnorm(self.lenof(self.res(a, ())))
        except Undecided:
            return None

    def fresh(self):
        """tensors created by the kernel"""
        out = []
        for e in self.I.evs:
            if e.kind == 'call' and e.ret is not None and e.fn.startswith('tinytorch::Tensor::') and e.obj is None:
                t = self.shapeof(e.ret)
                if t not in out and self.shapearg(t) is not None: out.append(t)
        return out

    def szx(self, t, i):
        """size i of a tensor in terms of the list its shape was built from"""
        a = self.shapearg(t)
        if a is None: return None
        l = self.res(a, ())
        while l.op in ('mut', 'mutd'): l = l.a[0]
        return self.listelem(l, i)

    def odometer(self, h, lid, i, n):
        """array counted up by one per iteration of loop lid: last position first, carry on reaching the bound"""
        inner = [x for x in subterms(n) if x.op == 'hav' and x.a[2] is h.a[2] and x.a[0] != lid]
        if len(set(inner)) != 1: return None
        hi = inner[0]
        I = hi.a[0]
        info = self.I.loopinfo.get(I)
        if info is None or info['init'].get(h.a[2]) is not h or info.get('brks') != 1: return None
        nx = info['next'].get(h.a[2])
        if nx is None or nx.op != 'st' or cval(nx.a[2]) != 0: return None
        k = nx.a[1]
        up = nx.a[0]
        if up.op == 'st':
            if up.a[0] is not hi or up.a[1] is not k or step_of(up.a[2], mk('elem', hi, k)) != 1: return None
        elif up is not hi: return None
        one = binop('+', mk('elem', hi, k), C(1))
        if k.op != 'hav' or k.a[0] != I: return None
        z = i
        while z.op in ('mut', 'mutd'): z = z.a[0]
        if not (z.op == 'new' and (len(z.a[1]) == 2 and cval(z.a[1][1]) == 0 or len(z.a[1]) == 1 and not self.shapecall(z))): return None
        N = self.res(z.a[1][0], self.lctx.get(lid, ()))
        ki, kn = self.srcs(k)
        if step_of(kn, k) != -1: return None
        lc = self.lctx.get(I, ())
        if intnorm(self.res(ki, lc)) is not intnorm(binop('-', N, C(1))): return None
        c = info['cond']
        if not (c.op == '<=' and cval(c.a[0]) == 0 and c.a[1] is k): return None
        gl = info['brkgl'][0]
        B = None
        for t, p in gl:
            if one not in t.a and not (t.op == '<' and any(x is one for x in t.a)): continue
            if t.op == '<' and t.a[0] is one and p: B = t.a[1]
            elif t.op == '<' and t.a[1] is one and not p: B = binop('+', t.a[0], C(1))
            elif t.op == '<=' and t.a[0] is one and p: B = binop('+', t.a[1], C(1))
            elif t.op == '<=' and t.a[1] is one and not p: B = t.a[0]
            elif t.op == '==' and not p: B = t.a[0] if t.a[1] is one else t.a[1]
            else: return None
        if B is None: return None
        # value on leaving by break: incremented, not reset
        if not any(x.op == 'st' and x.a[0] is hi and x.a[1] is k and x.a[2] is one for x in subterms(n)): return None
        kv = mk('atom', 'k@' + I)
        b = I + '@'
        B = Sub(self, {k: kv}).res(B, lc + (I,))
        if contains(B, it(I)): return None
        return N, b, subst(B, {kv: it(b)})

    def digit2(self, x, s):
        """idx % (stride(d) * size(d)) / stride(d)"""
        if x.op != '%' or s.op != 'strd': return None
        t, d = s.a
        m = intnorm(x.a[1])
        if m is intnorm(binop('*', s, mk('sz', t, d))): return mk('coord', x.a[0], t, intnorm(d))
        return None

    def digit3(self, x, s):
        """remainder chain: x starts as a linear index below numel and is reduced modulo stride(0), stride(1), ... ; x / stride(d) is coordinate d"""
        if x.op != 'REC' or s.op != 'strd': return None
        lid, sym, k, a, nx = x.a
        t, d = s.a
        b = it(lid + "'")
        if k is not it(lid) or nx.op != '%' or nx.a[0] is not sym or nx.a[1].op != 'strd' or nx.a[1].a[0] is not t: return None
        if intnorm(nx.a[1].a[1]) is not b or intnorm(d) is not k: return None
        if a.op != 'it': return None
        n = self.tripn(a.a[0])
        if n is None or n.op != 'numel' or not (n.a[0] is t or self.shapeof(n.a[0]) is t or self.same_numel(n.a[0], t)): return None
        return mk('coord', a, t, intnorm(d))

    def same_numel(self, a, b):
        """b was created with the sizes of a in another order"""
        l = self.shapearg(b)
        if l is None: return False
        try:
            l = self.res(l, ())
        except Undecided:
            return False
        if l.op != 'LCPY': return False
        src = l.a[1]
        return src.op == 'SCAT' and src.a[3].op == 'sz' and src.a[3].a[0] is a and intnorm(src.a[1]) is intnorm(mk('dim', a))

    def bufroot(self, b):
        """tensor whose buffer the array term b is"""
        while b.op in ('hav', 'mut', 'mutd', 'st'):
            b = b.a[2] if b.op == 'hav' else b.a[0]
            if not isinstance(b, T): return None
        if b.op in ('deref', 'D'):
            p = pdata(b.a[0])
            return self.root(p) if p is not None else None
        if b.op == 'call' and b.a[0].split('::')[-1].startswith('dataPtr'): return self.root(b.a[1])
        return None

    def bufoff(self, b):
        """(tensor, offset) of an array that is part of a tensor buffer"""
        while b.op in ('hav', 'mut', 'mutd', 'st'):
            b = b.a[2] if b.op == 'hav' else b.a[0]
            if not isinstance(b, T): return None
        return ptr_off(b.a[0]) if b.op in ('deref', 'D') else None

    def addr(self, t): return intnorm(t)

    def closed(self, h, ctx):
        lid = h.a[0]
        if not isinstance(h.a[2], T):
            if len(h.a) > 2 and h.a[1] == 'idx': return it(lid)
            raise Unk('loop value')
        info = self.I.loopinfo.get(lid)
        if info is None: raise Unk('loop value')
        i, n = self.srcs(h)
        if i is None or n is None: raise Unk('loop value %s' % show(h))
        lc = self.lctx.get(lid, ())
        inside = lid in ctx
        o = self.odometer(h, lid, i, n) if inside else None
        if o is not None: return mk('ODO', lid, it(lid), o[1], o[0], o[2])
        if not inside and info.get('brks'):
            bm = info.get('brkmem') or ()
            if len(bm) != 1 or not (bm[0].get(h.a[2]) is h or len(h.a) > 3 and self.I.field_of(bm[0].get(h.a[2]), h.a[3]) is h): raise Unk('value after a loop left by break')
        try:
            a = self.res(i, lc)
        except Undecided:
            if not (n.op == 'st' and n.a[0] is h): raise
            a = mk('atom', 'earlier')       # every element is overwritten before it is read
        slf = mk('self', lid, h.a[2], h.a[3] if len(h.a) > 3 else '')
        nx = Sub(self, {h: slf}).res(n, lc + (lid,))
        r = self.solve(lid, slf, a, nx, inside, h)
        if r is None or r.op == 'REC': r = self.solve(lid, slf, a, eqmax(nx), inside, h) or r
        if r is None: raise Unk('recurrence %s' % show(nx)[:160])
        return r

    def solve(self, lid, s, a, nx, inside, h):
        if nx is s: return a
        st = lin(nx, s)
        if st is not None:
            if has_self(st, s): return None
            if not has_it(st, lid) and not has_ld(st):
                k = it(lid) if inside else self.trip(lid)
                return intnorm(binop('+', a, binop('*', st, k))) if not isflt(st) else binop('+', a, binop('*', st, k))
            if inside: return binop('+', a, self.prefix('SUM', lid, st))
            return binop('+', a, mk('SUM', lid, self.trip(lid), self.asc(lid, st)))
        m = mult(nx, s)
        if m is not None and not has_self(m, s):
            if inside:
                p = self.prefix('PROD', lid, m)
                return p if cval(a) == 1 else binop('*', a, p)
            p = mk('PROD', lid, self.trip(lid), self.asc(lid, m))
            return p if cval(a) == 1 else binop('*', a, p)
        q = maxmin(nx, s)
        if q is not None and not has_self(q[1], s):
            op, f = q
            if inside: return self.prefix(op, lid, f, a)
            return mk(op, lid, self.trip(lid), self.asc(lid, f), a)
        am = self.argm(lid, s, nx, h)
        if am is not None:
            if inside: return None
            am, start = am
            # a running extreme that starts at a value of its own takes part in the comparison
            return mk(am[0], lid, self.trip(lid), self.asc(lid, am[1]), a, *(self.asc(lid, z) for z in am[2:]), *(() if start is None else (mk('start', start),)))
        ap = appends(nx, s)
        if ap is not None and not has_self(ap, s): return None if inside else mk('APPS', lid, self.trip(lid), ap, a)
        if nx.op == 'phi': nx = phist(nx)
        if nx.op == 'st' and nx.a[0] is s and not has_self(nx.a[1], s) and not has_self(nx.a[2], s) and not inside:
            return mk('SCAT', lid, self.trip(lid), nx.a[1], nx.a[2], a)
        if nx.op == '/' and nx.a[0] is s and not isflt(nx.a[1]) and not has_self(nx.a[1], s):
            # remaining quotient of a mixed-radix number
            q = self.prefix('PROD', lid, nx.a[1]) if inside else mk('PROD', lid, self.trip(lid), self.asc(lid, nx.a[1]))
            return binop('/', a, q)
        if nx.op == 'SCAT' and nx.a[4] is s and nx.a[2] is it(nx.a[0]) and not has_self(nx.a[3], s) and not has_it(nx.a[1], lid): return mk('STALE', nx.a[1], a)
        if any(x.op == 'self' and x is not s for x in subterms(nx)): return None
        return mk('REC', lid, s, it(lid) if inside else self.trip(lid), a, renorm(subst(nx, {it(lid): it(lid + "'")})))

    def prefix(self, op, lid, f, init=None):
        """accumulation over the iterations before the current one (iteration number it(lid)); descending loops are reversed"""
        self.trip(lid)
        b = lid + "'"
        k = it(b) if self.steps.get(lid, 1) > 0 else binop('-', binop('-', it(lid), C(1)), it(b))
        return mk(op, b, it(lid), renorm(subst(f, {it(lid): k})), *(() if init is None else (init,)))

    def asc(self, lid, f):
        """body in terms of the ascending position"""
        self.trip(lid)
        if self.steps.get(lid, 1) > 0: return f
        n = self.trip(lid)
        k = it(lid)
        return renorm(subst(f, {k: binop('-', binop('-', n, C(1)), k)}))

    def argm(self, lid, s, nx, h):
        r = self.argm0(lid, s, nx, h)
        if r is None: return None
        p, r = r
        init = p.a[3] if len(p.a) > 3 else None
        return r, None if init is None or identity(init, p.op) else init

    def argm0(self, lid, s, nx, h):
        """index of the extreme element: phi(better(f, best), pos, s)"""
        if nx.op != 'phi': return None
        c, x, y = nx.a
        if y is s: pass
        elif x is s: c, x, y = neg(c), y, x
        else: return None
        if has_self(x, s): return None
        # condition compares a running extreme with the element: MAX/MIN of f over the earlier iterations against f
        ng_ = c.op == 'not'
        c0 = c.a[0] if ng_ else c
        simple = c0.op in ('<', '<=', '==')
        down = self.dirn(lid) < 0

        def running(p, f): return p.op in ('MAX', 'MIN') and p.a[0] == lid + "'" and p.a[1] is it(lid) and p is self.prefix(p.op, lid, f, *p.a[3:])
        if simple and c0.op == '==' and ng_:
            for k in (0, 1):
                q, p = c0.a[k], c0.a[1 - k]
                fn = alg.stdfn(q)
                if p.op in ('MAX', 'MIN') and fn == p.op.lower() and p in alg.fargs(q) and len(alg.fargs(q)) == 2:
                    f = [z for z in alg.fargs(q) if z is not p]
                    if f and running(p, f[0]): return p, ('ARG' + p.op + ('L' if down else 'F'), f[0], x)
        for k in (0, 1) if simple else ():
            p, f = c0.a[k], c0.a[1 - k]
            if p.op in ('MAX', 'MIN') and p.a[0] == lid + "'":
                if c0.op == '==' : break
                strict = (c0.op == '<') != ng_
                up = (k == 0) != ng_      # running < element
                if not running(p, f): return None
                if up != (p.op == 'MAX'): return None
                return p, ('ARG' + p.op + ('F' if strict != down else 'L'), f, x)
        ps = {y for y in subterms(c) if y.op in ('MAX', 'MIN') and y.a[0] == lid + "'" and y.a[1] is it(lid)}
        if len(ps) == 1 and not down:
            p = ps.pop()
            for f in {y for q in subterms(c) if q.op in ('<', '<=', '==') and p in q.a for y in q.a if y is not p}:
                if not running(p, f): continue
                lo, eq, hi = [order3(c, f, p, o) for o in (-1, 0, 1)]
                if (lo, hi) != ((False, True) if p.op == 'MAX' else (True, False)): continue
                if eq is not None: return p, ('ARG' + p.op + ('L' if eq else 'F'), f, x)
                return p, ('ARG' + p.op + 'X', f, x, tiecond(c, f, p))
        return None

    def dirn(self, lid):
        self.trip(lid)
        return self.steps.get(lid, 1)

    # ---- stores
    def sinks(self):
        self.stores = []
        I = self.I
        for e in I.evs:
            if e.kind != 'write' or e.objloc is None: continue
            l = e.objloc
            if l.op == 'E':
                t = pdata_loc(l)
                ix = flat_idx(l)
                if t is None:
                    off = loc_off(l) or self.moved(l, e)
                    if off is None: continue
                    t, ix = off
                if ix is None: continue
            elif l.op == 'D':
                t = pdata(l.a[0])
                ix = C(0)
                if t is None:
                    off = ptr_off(l.a[0]) or self.moved(l, e)
                    if off is None: continue
                    t, ix = off
            else: continue
            try:
                t = self.tens(t, e.loops)
            except Undecided:
                pass
            self.stores.append(Store(self, self.root(t), ix, e))
        self.copies()
        for s in self.stores:
            if s.cp is not None: continue
            try:
                s.addr = self.addr(self.res(s.ix, s.e.loops))
                s.val = self.res(s.e.args[0], s.e.loops)
                s.nest = [(l, self.trip(l)) for l in s.e.loops]
                s.conds = self.conds(s.e)
                s.err = None
            except Undecided as x:
                s.err = x
        # values read back from buffers written earlier
        for s in self.stores:
            if s.err is None:
                try:
                    s.val = self.readback(s)
                except Undecided as x:
                    s.err = x

    def moved(self, l, e):
        """(tensor, offset) of a store through a pointer that a loop advances; None: not into a tensor"""
        ix = C(0)
        while l.op == 'E': l, ix = l.a[0], binop('+', l.a[1], ix)
        if l.op != 'D' or not any(x.op == 'hav' for x in subterms(l.a[0])): return None
        seen, todo = set(), [l.a[0]]
        while todo:
            for x in subterms(todo.pop()):
                if x.op == 'call' and x.a[0].split('::')[-1].startswith('dataPtr') or x.op == 'tcall' and x.a[0].startswith('dataPtr'): break
                if x.op == 'hav' and x not in seen:
                    seen.add(x)
                    info = self.I.loopinfo.get(x.a[0])
                    if info and info['init'].get(x.a[2]) is not None: todo.append(info['init'][x.a[2]])
            else: continue
            break
        else: return None
        try: r = self.ptr(l.a[0], e.loops)
        except Undecided: r = None
        if r is None:
            raise Unk('store through an advanced pointer')
        return r[0], binop('+', r[1], ix)

    def copies(self):
        """block copies and fills are stores over a range of elements"""
        for e in self.I.evs:
            if e.kind != 'call': continue
            n = e.fn.split('::')[-1]
            if n == 'copyOnDevice' and e.args and len(e.args) == 4 or e.fn in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'): kind = 'bytes'
            elif e.fn == 'tinytorch::op::fillOffset' and len(e.args) == 4: kind = 'fill'
            elif self.live and e.fn in ('memset', 'std::memset') and cval(e.args[1]) == 0: kind = 'zero'
            elif e.fn.split('<')[0] in ('std::fill_n', 'std::fill') and len(e.args) == 3: kind = 'std' + n.split('<')[0]
            else: continue
            if kind in ('bytes', 'zero') and self.esz is None: continue
            b = 'cp%d' % e.seq
            s = None
            try:
                if kind in ('bytes', 'zero'):
                    d = self.ptr(e.args[0], e.loops)
                    if d is None: continue
                    s = Store(self, d[0], d[1], e)
                    src = self.ptr(e.args[1], e.loops) if kind == 'bytes' else None
                    if src is None and kind == 'bytes': raise Unk('source of a block copy')
                    p = ipoly(self.res(e.args[2], e.loops))
                    if any(v % self.esz for v in p.values()):
                        if kind == 'bytes': raise Unk('byte count')
                        # the elements that are zeroed whole
                        cnt = intnorm(binop('/', ipoly_term(p), C(self.esz)))
                    else: cnt = ipoly_term({m: v // self.esz for m, v in p.items()})
                    s.addr = intnorm(binop('+', d[1], it(b)))
                    s.val = mk('ld', src[0], intnorm(binop('+', src[1], it(b)))) if src else C(0)
                elif kind in ('stdfill_n', 'stdfill'):
                    d = self.ptr(e.args[0], e.loops)
                    if d is None: continue
                    s = Store(self, d[0], d[1], e)
                    if kind == 'stdfill_n': cnt = intnorm(self.res(e.args[1], e.loops))
                    else:
                        q = self.ptr(e.args[1], e.loops)
                        if q is None or q[0] is not d[0]: raise Unk('range of a fill')
                        cnt = intnorm(binop('-', q[1], d[1]))
                    s.addr = intnorm(binop('+', d[1], it(b)))
                    s.val = self.res(e.args[2], e.loops)
                else:
                    s = Store(self, self.root(e.args[0]), None, e)
                    s.addr = intnorm(binop('+', self.res(e.args[2], e.loops), it(b)))
                    s.val = mk('ld', self.root(e.args[1]), C(0))
                    cnt = intnorm(self.res(e.args[3], e.loops))
                s.cp = b
                self.tripm[b] = cnt
                self.steps[b] = 1
                s.nest = [(l, self.trip(l)) for l in e.loops] + [(b, cnt)]
                s.conds = self.conds(e)
                s.err = None
            except Undecided as x:
                if s is None: s = Store(self, UNKROOT, None, e)
                s.cp = b
                s.err = x
            self.stores.append(s)
        self.stores.sort(key=lambda s: s.e.seq)

    def ptr(self, p, ctx):
        """(tensor, element offset) of a pointer value, through pointers advanced in loops"""
        r = self.res(p, ctx)
        ps = [x for x in subterms(r) if x.op == 'tcall' and x.a[0].startswith('dataPtr') or x.op == 'call' and x.a[0].split('::')[-1].startswith('dataPtr')]
        ps = [x for x in ps if intnorm(x) is x]
        for x in ps:
            off = intnorm(binop('-', r, x))
            if contains(off, x): continue
            return self.root(x.a[1]), off
        return None

    def conds(self, e):
        """path conditions of a store that are not loop conditions"""
        out = []
        lc = set()
        for l, info in self.I.loopinfo.items():
            c = info['cond']
            if c is None: continue
            lc.add(c)
            if c.op == 'not': lc.add(c.a[0])
            if c.op == 'and': lc.update(c.a)
        for t, p in e.gl:
            if t in lc or t.op == 'inrange': continue
            out.append((self.res(t, e.loops), p))
        return out

    def readback(self, s):
        """replace loads from a buffer this kernel wrote before by the value stored"""
        memo = {}

        def look(x):
            if x.op != 'ld': return None
            prev = [o for o in self.stores if o.root is x.a[0] and o.e.seq < s.e.seq]
            own = [o for o in self.stores if o.root is x.a[0]]
            if not prev: return None
            if self.live == 'inter': return None                # intermediate tensors are tabulated by the consumer
            if self.live and s.root is x.a[0]: return None      # read back in program order by the consumer
            for o in reversed(prev):
                if o.err is not None: raise o.err
                m = self.unify(o, x.a[1], s)
                if m == 'no': continue
                if m is None: raise Unk('load of a partly written buffer')
                if any(c not in s.conds for c in o.conds): raise Unk('load of a conditionally written buffer')
                return renorm(subst(o.val, m))
            return None
        return renorm(rewrite(s.val, look, memo))

    def unify(self, o, addr, s):
        """substitution of o's iteration counters making o.addr equal to addr"""
        shared = []
        for x, y in zip(o.e.loops, s.e.loops):
            if x == y: shared.append(x)
            else: break
        mine = [l for l in o.e.loops if l not in shared]
        theirs = [l for l in s.e.loops if l not in shared]
        # the counters of addr may be bound by a summary inside s.val: use every counter in addr
        its = sorted({x.a[0] for x in subterms(addr) if x.op == 'it'} - set(shared))
        if not mine: return {} if intnorm(o.addr) is intnorm(addr) else ('no' if cval(binop('-', o.addr, addr)) is not None else None)
        from itertools import permutations
        for perm in permutations(its, len(mine)) if len(its) <= 4 else ():
            m = {it(a): it(b) for a, b in zip(mine, perm)}
            if all(intnorm(subst(self.trip(a), m)) is intnorm(self.trip(b)) for a, b in zip(mine, perm)) and renorm(subst(o.addr, m)) is addr: return m
        return None


class Sub:
    """resolution under a substitution of one loop-carried value (separate memo: results mention the symbol)"""

    def __init__(self, K, m):
        self.K, self.m = K, m

    def res(self, t, ctx):
        K = self.K
        old = K.memo
        K.memo = dict(m0(old, self.m))
        for h, s in self.m.items(): K.memo[(h, ctx)] = s
        busy = K.busy
        K.busy = set()
        K.fixed = getattr(K, 'fixed', [])
        if len(K.fixed) > 12: raise Unk('cyclic value')
        K.fixed.append(self.m)
        try:
            save = K.closed
            def closed(h, c, save=save):
                for f in K.fixed:
                    if h in f and h.a[0] in c: return f[h]
                return save(h, c)
            K.closed = closed
            r = K.res(t, ctx)
        finally:
            K.closed = save
            K.fixed.pop()
            K.memo = old
            K.busy = busy
        return r


UNKROOT = mk('atom', 'unknown buffer')


def m0(memo, m):
    return ()


class Store:
    def __init__(self, K, root, ix, e):
        self.K, self.root, self.ix, self.e = K, root, ix, e
        self.cp = None


def suffix(p, t, d):
    """is p the product of the sizes after dimension d"""
    n = intnorm(binop('-', binop('-', mk('dim', t), C(1)), d))
    if intnorm(p.a[1]) is not n or p.a[2].op != 'sz' or p.a[2].a[0] is not t: return False
    return intnorm(p.a[2].a[1]) is intnorm(binop('+', binop('+', d, C(1)), it(p.a[0])))


def sufprod(t, d, l="q'"):
    return mk('PROD', l, intnorm(binop('-', binop('-', mk('dim', t), C(1)), d)), mk('sz', t, intnorm(binop('+', binop('+', d, C(1)), it(l)))))


NONE = mk('atom', 'NONE')


def marked(t, i):
    return mk('call', *t.a[:2], t.a[2] + (mk('at', i),), *t.a[3:]) if t.op == 'call' and t.a[1] is None and t.a[0].startswith('tinytorch::Tensor::') else t


def phist(t):
    """the same element stored on both sides of a choice: the choice moves into the value"""
    if t.op != 'phi': return t
    a, b = phist(t.a[1]), phist(t.a[2])
    if a.op == 'st' and b.op == 'st' and a.a[0] is b.a[0] and a.a[1] is b.a[1]: return mk('st', a.a[0], a.a[1], mk('phi', t.a[0], a.a[2], b.a[2]))
    return t


def appends(n, s):
    """elements appended by one iteration: a decision tree with leaves value or NONE"""
    if n.op == 'app' and n.a[0] is s and len(n.a) == 2: return n.a[1]
    if n.op == 'phi' and contains(n, s) and not contains(n.a[0], s):
        x, y = [NONE if z is s else appends(z, s) for z in n.a[1:]]
        if x is not None and y is not None: return phi(n.a[0], x, y)
    return None


def normdim(c, x, y):
    """phi(d < 0, d + dim(t), d): a dimension counted from the end when negative"""
    if c.op == 'not': c, x, y = c.a[0], y, x
    if c.op == '<' and cval(c.a[1]) == 0: d = c.a[0]
    elif c.op == '<=' and cval(c.a[0]) == 0: d, x, y = c.a[1], y, x
    else: return None
    if y is not d or x.op != '+': return None
    for i in (0, 1):
        if x.a[i] is d and x.a[1 - i].op == 'dim': return mk('nd', d, x.a[1 - i].a[0])
    return None


def ptr_off(p):
    """(tensor, offset) of a pointer expression into a tensor buffer"""
    if p.op in ('+', '-') and len(p.a) == 2:
        for i in (0, 1):
            b = pdata(p.a[i])
            if b is None:
                r = ptr_off(p.a[i])
                if r is not None and p.op == '+': return r[0], binop('+', r[1], p.a[1 - i])
            elif p.op == '+': return b, p.a[1 - i]
            elif i == 0: return b, binop('-', C(0), p.a[1])
    return None


def loc_off(l):
    if l.op == 'E':
        b = l.a[0]
        if b.op == 'D':
            r = ptr_off(b.a[0])
            if r is not None: return r[0], binop('+', r[1], l.a[1])
        r = loc_off(b)
        if r is not None: return r[0], binop('+', r[1], l.a[1])
    return None


def flat_idx(l):
    ix = None
    while l.op == 'E':
        ix = l.a[1] if ix is None else binop('+', ix, l.a[1])
        l = l.a[0]
    return ix


def step_of(n, h):
    if n.op == '+' and len(n.a) == 2:
        for i in (0, 1):
            if n.a[i] is h and isinstance(cval(n.a[1 - i]), int): return cval(n.a[1 - i])
    if n.op == '-' and len(n.a) == 2 and n.a[0] is h and isinstance(cval(n.a[1]), int): return -cval(n.a[1])
    return None


def has_it(t, lid):
    k = it(lid)
    return contains(t, k)


def has_self(t, s): return contains(t, s)


def nonneg(t):
    return t.op in ('it', 'sz', 'strd', 'numel', 'dim', 'len', 'slack', 'coord') or t.op == 'PROD' and nonneg(t.a[2])


def has_hav(t): return any(x.op == 'hav' for x in subterms(t))


def has_ld(t): return any(x.op == 'ld' for x in subterms(t))


def lin(n, s):
    """rest with n = s + rest, or None"""
    if n is s: return C(0)
    if not contains(n, s): return None
    if n.op == '+':
        for i in (0, 1):
            if contains(n.a[i], s) and not contains(n.a[1 - i], s):
                r = lin(n.a[i], s)
                return None if r is None else (n.a[1 - i] if cval(r) == 0 else binop('+', r, n.a[1 - i]))
        return None
    if n.op == '-' and len(n.a) == 2 and contains(n.a[0], s) and not contains(n.a[1], s):
        r = lin(n.a[0], s)
        return None if r is None else (mk('neg', n.a[1]) if cval(r) == 0 else binop('-', r, n.a[1]))
    if n.op == 'phi' and not contains(n.a[0], s):
        x = C(0) if n.a[1] is s else lin(n.a[1], s)
        y = C(0) if n.a[2] is s else lin(n.a[2], s)
        if x is None or y is None: return None
        return phi(n.a[0], x, y)
    if n.op == 'tofloat': return lin(n.a[0], s)
    return None


def mult(n, s):
    if n.op == '*' and len(n.a) == 2:
        for i in (0, 1):
            if n.a[i] is s and not contains(n.a[1 - i], s): return n.a[1 - i]
            if contains(n.a[i], s) and not contains(n.a[1 - i], s):
                r = mult(n.a[i], s)
                if r is not None: return binop('*', r, n.a[1 - i])
    if n.op == 'phi' and not contains(n.a[0], s):
        x = C(1) if n.a[1] is s else mult(n.a[1], s)
        y = C(1) if n.a[2] is s else mult(n.a[2], s)
        if x is not None and y is not None: return phi(n.a[0], x, y)
    return None


def order3(c, f, s, o):
    """truth of condition c when f compares to s as o (-1, 0, 1); None: depends on something else"""
    if c.op == 'c': return bool(c.a[0])
    if c.op == 'not':
        r = order3(c.a[0], f, s, o)
        return None if r is None else not r
    if c.op in ('and', 'or'):
        rs = [order3(x, f, s, o) for x in c.a]
        if c.op == 'and': return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if c.op in ('<', '<=', '=='):
        x, y = c.a
        if (x, y) == (f, s): d = o
        elif (x, y) == (s, f): d = -o
        else: return None
        return d < 0 if c.op == '<' else d <= 0 if c.op == '<=' else d == 0
    if c.op == 'phi':
        q = order3(c.a[0], f, s, o)
        if q is not None: return order3(c.a[1 if q else 2], f, s, o)
        x, y = order3(c.a[1], f, s, o), order3(c.a[2], f, s, o)
        return x if x == y else None
    return None


def tiecond(c, f, s):
    def g(x):
        if x.op in ('<', '<=', '=='):
            r = order3(x, f, s, 0)
            if r is not None: return C(1 if r else 0)
        return None
    return rewrite(c, g)


def maxmin(n, s):
    fn = alg.stdfn(n)
    if fn in ('max', 'min'):
        a = alg.fargs(n)
        for i in (0, 1):
            if a[i] is s: return fn.upper(), a[1 - i]
    if n.op == 'phi':
        c, x, y = n.a
        ng_ = c.op == 'not'
        if ng_: c, x, y = c.a[0], y, x
        if c.op == '==' and y is not s and x is s:        # not(max(s, f) == s) ? f : s   (x, y already swapped for the negation)
            for i in (0, 1):
                q, p = c.a[i], c.a[1 - i]
                fn = alg.stdfn(q)
                if p is s and fn in ('max', 'min') and set(alg.fargs(q)) == {s, y}: return fn.upper(), y
        if y is s and x is not s and not contains(x, s) and not (c.op in ('<', '<=') and not ng_):
            cc = neg(c) if ng_ else c
            lo, hi = order3(cc, x, s, -1), order3(cc, x, s, 1)
            if lo is False and hi is True: return 'MAX', x
            if lo is True and hi is False: return 'MIN', x
        if c.op in ('<', '<=') and {x, y} == set(c.a) and s in c.a and x is not y:
            f = c.a[0] if c.a[1] is s else c.a[1]
            # c: p < q  picks x
            p, q = c.a
            return ('MAX' if x is q else 'MIN'), f
    return None


# ---- integer normal form -------------------------------------------------------------------------------------
INTM = {}


def intnorm(t):
    r = INTM.get(t)
    if r is None:
        r = INTM[t] = ipoly_term(ipoly(t))
        INTM[r] = r
    return r


def ipoly(t):
    """polynomial {monomial (sorted tuple of terms): int}"""
    if t.op == 'c' and isinstance(t.a[0], int): return {(): t.a[0]} if t.a[0] else {}
    if t.op in ('+', '-') and len(t.a) == 2:
        x, y = ipoly(t.a[0]), ipoly(t.a[1])
        k = 1 if t.op == '+' else -1
        r = dict(x)
        for m, c in y.items():
            r[m] = r.get(m, 0) + k * c
            if not r[m]: del r[m]
        return r
    if t.op in ('neg', '-') and len(t.a) == 1: return {m: -c for m, c in ipoly(t.a[0]).items()}
    if t.op == '*':
        x, y = ipoly(t.a[0]), ipoly(t.a[1])
        r = {}
        for m, c in x.items():
            for n, d in y.items():
                k = tuple(sorted(m + n, key=lambda z: z.id))
                r[k] = r.get(k, 0) + c * d
                if not r[k]: del r[k]
        return r
    if t.op == '<<' and cval(t.a[1]) is not None: return ipoly(mk('*', t.a[0], C(1 << cval(t.a[1]))))
    if t.op == '>>' and cval(t.a[1]) is not None: t = mk('/', t.a[0], C(1 << cval(t.a[1])))
    if t.op in ('/', '%') and not isflt(t):
        t = binop(t.op, intnorm(t.a[0]), intnorm(t.a[1]))
        if t.op not in ('/', '%'): return ipoly(t)
    elif t.op in ('ld', 'sz', 'strd') and isinstance(t.a[1], T): t = mk(t.op, t.a[0], intnorm(t.a[1]))
    return {(t,): 1}


def ipoly_term(p):
    r = None
    for m, c in sorted(p.items(), key=lambda kv: tuple(x.id for x in kv[0])):
        x = None
        for a in m: x = a if x is None else mk('*', x, a)
        if x is None: x = C(c)
        elif c != 1: x = mk('*', C(c), x)
        r = x if r is None else mk('+', r, x)
    return C(0) if r is None else r


def eqmax(t):
    """max(x, y) == x as y <= x, min(x, y) == x as x <= y"""
    def f(x):
        if x.op != '==': return None
        for k in (0, 1):
            q, p = x.a[k], x.a[1 - k]
            fn = alg.stdfn(q)
            if fn in ('max', 'min') and len(alg.fargs(q)) == 2 and p in alg.fargs(q):
                o = [z for z in alg.fargs(q) if z is not p]
                if o: return binop('<=', o[0], p) if fn == 'max' else binop('<=', p, o[0])
        return None
    return rewrite(t, f)


def renorm(t):
    """integer normal form of all addresses and sizes inside a value"""
    def f(x):
        if x.op in ('ld', 'sz', 'strd') and isinstance(x.a[1], T): return mk(x.op, x.a[0], intnorm(x.a[1]))
        if x.op in ('+', '-', '*', '/', '%') and not isflt(x): return intnorm(x)
        return None
    return rewrite(t, f)


# ---- comparison of values -------------------------------------------------------------------------------------
class KConv(alg.Conv):
    """values with loads and summaries: bound counters are numbered by nesting depth, constant factors leave the sums"""

    LEAF = ('ld', 'sz', 'strd', 'numel', 'dim', 'nd', 'it', 'SUM', 'PROD', 'MAX', 'MIN', 'ARGMAXF', 'ARGMAXL', 'ARGMAXX', 'ARGMINX', 'ARGMINF', 'ARGMINL', 'coord', 'elem', 'tcall', 'SCAT')

    def __init__(self, atomof=None, names=None):
        alg.Conv.__init__(self, atomof)
        self.bound = {}
        self.indic = False
        self.names = names or {}

    def conv_(self, t):
        op = t.op
        a = self.atomof(t)
        if a is not None and not isinstance(a, R_): return alg.atom(a) if not isinstance(a, (int, float)) else alg.const(a)
        if a is not None: return a
        if op == 'it':
            b = self.bound.get(t.a[0])
            return alg.atom(b if b is not None else self.names.get(t.a[0], ('it', t.a[0])))
        if op in ('ld', 'sz', 'strd') and (self.bound or self.indic) and isinstance(t.a[1], T) and t.a[1].op == 'phi':
            c, x, y = t.a[1].a
            return self.conv(phi(c, mk(op, t.a[0], x), mk(op, t.a[0], y)))
        if op == 'ld': return alg.atom(('ld', self.tname(t.a[0]), self.conv(t.a[1]).key()))
        if op == 'strd': return self.conv(sufprod(*t.a))
        if op == 'sz': return alg.atom((op, self.tname(t.a[0]), self.conv(t.a[1]).key()))
        if op in ('numel', 'dim'): return alg.atom((op, self.tname(t.a[0])))
        if op == 'nd': return alg.atom((op, self.conv(t.a[0]).key(), self.tname(t.a[1])))
        if op in ('SUM', 'PROD', 'MAX', 'MIN'): return self.big(t)
        if op in ('ARGMAXF', 'ARGMAXL', 'ARGMINF', 'ARGMINL'):
            if t.a[-1].op == 'start': raise Undecided('start of an extreme')
            return self.big(t)
        if op == '/' and not isflt(t): return alg.atom(('idiv', self.conv(t.a[0]).key(), self.conv(t.a[1]).key()))
        if op == '%': return alg.atom(('mod', self.conv(t.a[0]).key(), self.conv(t.a[1]).key()))
        if op == 'coord': return alg.atom((op, self.conv(t.a[0]).key(), self.tname(t.a[1]), self.conv(t.a[2]).key()))
        if op == 'phi' and (self.bound or self.indic): 
            i = self.ind(t.a[0])
            x, y = self.conv(t.a[1]), self.conv(t.a[2])
            return i * (x - y) + y
        if op == 'elem': return alg.atom(('elem', self.conv(t.a[0]).key(), self.conv(t.a[1]).key()))
        if op == 'SCAT': return alg.atom(('SCAT', self.conv(t.a[1]).key(), self.bodykey(t, 2), self.bodykey(t, 3)))
        if op == 'param': return alg.atom(('param', t.a[1]))
        if op == 'opq' or (op == 'call' and not alg.stdfn(t)):
            return alg.atom(('call', t.a[0].split('::')[-1], self.akey(t.a[1]), tuple(self.akey(x) for x in t.a[2])))
        if op == 'tcall': return alg.atom(('tcall', t.a[0], self.tname(t.a[1]), self.akey(t.a[2])))
        if op == 'fld': return alg.atom(('fld', self.akey(t.a[0]), t.a[1]))
        if op in ('self', 'hav', 'unk'): raise Unk('value ' + show(t)[:80])
        return alg.Conv.conv_(self, t)

    def akey(self, x):
        if x is None: return None
        if isinstance(x, tuple): return tuple(self.akey(y) for y in x)
        if not isinstance(x, T): return x
        if x.op == 'new' or (x.op == 'call' and x.a[0].startswith('tinytorch::Tensor::')): return self.tname(x)
        return self.conv(x).key()

    def bodykey(self, t, i):
        old, memo = self.bound.get(t.a[0]), self.memo
        self.memo = {}
        self.bound[t.a[0]] = ('s',)
        try:
            return self.conv(t.a[i]).key()
        finally:
            self.memo = memo
            if old is None: self.bound.pop(t.a[0])
            else: self.bound[t.a[0]] = old

    def ind(self, c):
        """indicator (0/1) of a condition as a polynomial over atomic indicators"""
        one = alg.const(1)
        if c.op == 'c': return alg.const(1 if c.a[0] else 0)
        if c.op == 'not': return one - self.ind(c.a[0])
        if c.op == 'and': return self.ind(c.a[0]) * self.ind(c.a[1])
        if c.op == 'or': return one - (one - self.ind(c.a[0])) * (one - self.ind(c.a[1]))
        if c.op in ('<', '<=', '=='):
            x, y = c.a
            if c.op == '<=': return one - self.ind(mk('<', y, x))
            d = self.conv(x) - self.conv(y)
            k = d.const()
            if k is not None: return alg.const(1 if (k < 0 if c.op == '<' else k == 0) else 0)
            if c.op == '==' and alg.lead_neg(d): d = -d
            return alg.atom(('I', c.op, d.key()))
        if c.op == 'phi':
            i = self.ind(c.a[0])
            return i * (self.ind(c.a[1]) - self.ind(c.a[2])) + self.ind(c.a[2])
        return alg.atom(('I', 'true', self.conv(c).key()))

    def tname(self, t):
        return self.names.get(t, t.a[1] if t.op == 'param' else ('t', t.id))

    def big(self, t):
        lid = t.a[0]
        N = self.conv(t.a[1])
        # binder named by its range; nested dependent binders over the same range get distinct names
        nk = N.key()
        j = 0
        for l2, b2 in self.bound.items():
            if b2[1] == nk and l2 != lid and contains(t.a[2], it(l2)): j = max(j, b2[2] + 1)
        b = ('b', nk, j)
        old = self.bound.get(lid)
        memo = self.memo
        self.memo = {}
        self.bound[lid] = b
        try:
            body = self.conv(t.a[2])
            extra = self.conv(t.a[4]) if t.op.startswith('ARG') else None
        finally:
            self.memo = memo
            if old is None: self.bound.pop(lid)
            else: self.bound[lid] = old
        if t.op == 'SUM': return bigsum(N, body, b)
        init = None
        if t.op in ('MAX', 'MIN', ) or t.op.startswith('ARG'):
            i = t.a[3]
            init = None if identity(i, t.op.replace('ARG', '')[:3]) else self.conv(i).key()
            if t.op.startswith('ARG') and cval(i) == 0: init = None
        return alg.atom((t.op, N.key(), body.key(), init) + ((extra.key(),) if extra is not None else ()) + (b,))


R_ = alg.R
BIG = ('SUM', 'PROD', 'MAX', 'MIN', 'ARGMAXF', 'ARGMAXL', 'ARGMINF', 'ARGMINL')


def identity(t, op):
    """is t the neutral starting value of a maximum / minimum"""
    sgn = 1
    while True:
        if t.op in ('neg', '-') and len(t.a) == 1: sgn, t = -sgn, t.a[0]
        elif t.op in ('tofloat', 'cast', 'fcast') and isinstance(t.a[-1], T): t = t.a[-1]
        elif t.op == 'new' and len(t.a[1]) == 1: t = t.a[1][0]
        else: break
    if t.op == 'new' and t.a[0] in RED and len(t.a[1]) == 2 and isinstance(cval(t.a[1][0]), int):
        bits = cval(t.a[1][0])
        if bits & 0x8000: sgn = -sgn
        if bits & 0x7fff not in ((0x7bff, 0x7c00) if t.a[0].endswith('::Half') else (0x7f7f, 0x7f80)): return False
        return sgn == (-1 if op == 'MAX' else 1)
    if t.op == 'call' and 'numeric_limits' in t.a[0]:
        n = t.a[0].split('::')[-1]
        if n == 'lowest': sgn = -sgn
        elif n not in ('max', 'infinity'): return False
        return sgn == (-1 if op == 'MAX' else 1)
    c = cval(t)
    if isinstance(c, float) and (c in (float('inf'), float('-inf')) or abs(c) >= 3e38): return (c * sgn < 0) == (op == 'MAX')
    return False


def dep(x, b):
    if x == b: return True
    if isinstance(x, tuple) and x and x[0] in BIG and x[-1] == b: return dep(x[1], b)
    if isinstance(x, tuple): return any(dep(y, b) for y in x)
    return False


def bigsum(N, body, b):
    """sum over the bound counter: factors and denominators that do not depend on it move out, terms are summed one by one"""
    if dep_p(body.d, b): return alg.atom(('SUM', N.key(), body.key(), b))
    out = alg.const(0)
    for m, c in body.n.items():
        o, i = [], []
        for at, e in m:
            if dep(at, b): i.append((at, e))
            elif dep(e, b):
                eo = {k: v for k, v in dict(e).items() if not dep(k, b)}
                ei = {k: v for k, v in dict(e).items() if dep(k, b)}
                if eo: o.append((at, alg.fz(eo)))
                i.append((at, alg.fz(ei)))
            else: o.append((at, e))
        f = alg.R({tuple(o): c})
        if i:
            inner = alg.R({tuple(sorted(i, key=repr)): alg.Fraction(1)})
            f = f * alg.atom(('SUM', N.key(), inner.key(), b))
        else: f = f * N
        out = out + f
    return out / alg.R(body.d)


def dep_p(p, b):
    return any(dep(m, b) for m in p)


def same_int(x, y, names=None):
    """equality of integer (index) expressions: conditions as indicators"""
    a, b = KConv(None, names), KConv(None, names)
    a.indic = b.indic = True
    return alg.same(a.conv(x), b.conv(y))


def kequal(x, y, atomof=None, names=None, assume=None):
    return alg.equal(x, y, atomof, assume, lambda a: KConv(a, names))


def coef(addr, k):
    """(coefficient, rest) of an address that is linear in counter k, or None"""
    p = ipoly(addr)
    c, r = {}, {}
    for m, v in p.items():
        n = m.count(k)
        if n > 1 or any(contains(x, k) for x in m if x is not k): return None
        if n == 1:
            m = list(m)
            m.remove(k)
            c[tuple(m)] = v
        else: r[m] = v
    return ipoly_term(c), ipoly_term(r)
