"""Data-parallel gradient reduction: the Reducer and DistributedModule are interpreted abstractly (heap.py) for symbolic parameter sizes, a symbolic bucket cap and
every order in which gradients become ready.  Tensors are sections with symbolic extents whose contents are terms; a collective turns the contents of its buffer into
the sum (or the root's value) only when its work is waited for."""
import re
from itertools import permutations
from heap import *
from heap import _Ret
from base import *

NS = 'tinytorch::distributed::'
TEN = 'tinytorch::Tensor'


class Ten(Obj):
    """kind: param, plain, buf, view, alias, none"""
    def __init__(self, kind, **f):
        Obj.__init__(self, TEN, **f)
        self.kind = kind

    def base(self): return self.f['of'].base() if self.kind == 'alias' else self


class DHeap(Heap):
    def arith(self, op, x, y):
        if op == '/' and isinstance(x, Lin) and x.const() and x.c == 1 and isinstance(y, Lin) and y == W: return ('inv',)
        return Heap.arith(self, op, x, y)

    # -- tensors
    def size(self, t):
        t = t.base()
        if t.kind == 'none': raise Unk('size of an undefined tensor')
        return t.f['numel']

    def same(self, a, b): return a == b or (self.entails(a - b) and self.entails(b - a))

    def read(self, t):
        t = t.base()
        if t.kind in ('param', 'plain'): return t.f['val']
        if t.kind == 'view':
            b = t.f['buf']
            if b.f['pend']: raise Fault('the flat buffer of a bucket is read before its collective operation was waited for')
            for o, n, v in b.f['segs']:
                if self.same(o, t.f['off']) and self.same(n, t.f['numel']): return v
            for o, n, v in b.f['segs']:
                if not (self.entails(o - t.f['off'] - t.f['numel']) or self.entails(t.f['off'] - o - n)): raise Fault('a section read from the flat buffer is not a section that was written: its offset or length differs')
            return ('unset',)
        raise Unk('contents')

    def write(self, t, v, n):
        t = t.base()
        if t.kind in ('param', 'plain'):
            if not self.same(t.f['numel'], n): raise Fault('a copy takes %s elements into a tensor of %s' % (n, t.f['numel']))
            t.f['val'] = v
            return
        if t.kind != 'view': raise Unk('write')
        b = t.f['buf']
        if b.f['pend']: raise Fault('the flat buffer of a bucket is written while its collective operation is under way')
        o, m = t.f['off'], t.f['numel']
        if not self.same(m, n): raise Fault('a copy takes %s elements into a section of %s' % (n, m))
        segs = []
        for o2, n2, v2 in b.f['segs']:
            if self.same(o, o2) and self.same(m, n2): continue
            if self.entails(o2 - o - m) or self.entails(o - o2 - n2): segs.append((o2, n2, v2))
            else: raise Fault('the sections of two parameters overlap in the flat buffer')
        b.f['segs'] = segs + [(o, m, v)]

    def tensor(self, t, m, a, n):
        if m == 'defined': return t.kind != 'none'
        if t.kind == 'none': raise Fault('an undefined tensor is used (%s)' % m)
        if m in ('numel',): return self.size(t)
        if m == 'nbytes': return self.size(t).scale(4)
        if m == 'device': return self.dev
        if m == 'dtype': return S('dtype')
        if m in ('shape', 'sizes') and not a: return ('shape', t)
        if m in ('flatten', 'view', 'reshape', 'detach', 'viewAs', 'contiguous'):
            if m in ('view', 'reshape') and a and isinstance(a[0], tuple) and a[0][0] == 'shape' and not self.same(self.size(t), self.size(a[0][1])): raise Fault('a section of %s elements is viewed as a tensor of %s' % (self.size(t), self.size(a[0][1])))
            return Ten('alias', of=t)
        if m == 'narrow':
            if not (isinstance(a[0], Lin) and a[0].const() and a[0].c == 0): raise Unk('narrow')
            b = t.base()
            if b.kind != 'buf': raise Unk('narrow of %s' % b.kind)
            if not (self.entails(a[1]) and self.entails(b.f['numel'] - a[1] - a[2])): raise Fault('a section reaches beyond the flat buffer')
            return Ten('view', buf=b, off=a[1], numel=a[2])
        if m == 'slice':
            raise Unk('slice')
        if m == 'copy_':
            self.write(t, self.read(a[0]), self.size(a[0])); return t
        if m == 'grad':
            g = t.base().f.get('grad')
            if t.base().kind != 'param': raise Unk('grad')
            return g if g is not None else Ten('none')
        if m == 'registerHook':
            if t.base().kind != 'param': raise Unk('hook')
            t.base().f['hooks'].append((a[0], a[1])); return K(len(t.base().f['hooks']) - 1)
        if m in ('/=', '*=', 'div_', 'mul_', 'divInplace', 'mulInplace'):
            b = t.base()
            x = a[0]
            if isinstance(x, Ten) and x.kind == 'plain' and 'sc' in x.f: x = x.f['sc']
            div = m in ('/=', 'div_', 'divInplace')
            if div and isinstance(x, Lin) and x == W or not div and x == ('inv',): w = 'div'
            elif isinstance(x, Lin) and x.const() and x.c == 1: return t
            elif isinstance(x, Lin): w = 'scale by %s%s' % ('1/' if div else '', x)
            else: raise Unk('scale')
            if b.kind == 'buf':
                if b.f['pend']: raise Fault('the flat buffer of a bucket is scaled before its collective operation was waited for')
                b.f['segs'] = [(o, k, (w, v)) for o, k, v in b.f['segs']]
            else: self.write(b, (w, self.read(b)), self.size(b))
            return t
        if m in ('/', '*'):
            x = a[0]
            if m == '/' and isinstance(x, Lin) and x == W or m == '*' and x == ('inv',): return Ten('plain', numel=self.size(t), val=('div', self.read(t)))
            raise Unk('scale')
        raise Unk('Tensor::%s' % m)

    def static(self, m, a):
        if m in ('zeros', 'empty') and isinstance(a[0], ListV) and len(a[0].m) == 1:
            return Ten('buf', numel=a[0].m[0], segs=[], pend=None)
        if m == 'scalar': return Ten('plain', numel=K(1), val=('c',), sc=a[0])
        raise Unk('Tensor::%s' % m)

    # -- collectives
    def collective(self, m, a, n):
        if m == 'getWorldSize': return W
        if m == 'getRank': return S('rank')
        if m in ('allReduce', 'broadcast'):
            ts = a[0].m if isinstance(a[0], ListV) else [a[0]]
            ends = []
            for t in ts:
                b = t.base()
                if b.kind != 'buf': raise Unk('collective on %s' % b.kind)
                if b.f['pend']: raise Fault('a second collective operation starts on a flat buffer while one is under way')
                if m == 'allReduce':
                    e = n['a'][1] if len(n['a']) > 1 else {}
                    nm = str(e.get('n') or 'SUM').split('::')[-1]
                    f = {'SUM': lambda v: ('sum', v), 'AVG': lambda v: ('div', ('sum', v))}.get(nm, lambda v: (nm, v))
                else:
                    r = a[1]
                    f = lambda v, r=r: ('root %s' % (r,), v)
                b.f['n'] = b.f.get('n', 0) + 1
                ends.append((b, f))
            w = Obj(NS + 'Work', ends=ends, done=False)
            for b, f in ends: b.f['pend'] = w
            self.log.append((m, ts))
            return w
        raise Unk('DistributedProcessGroup::%s' % m)

    def work(self, o, m, a):
        if m == 'wait':
            if not o.f['done']:
                o.f['done'] = True
                for b, f in o.f['ends']:
                    b.f['segs'] = [(x, k, f(v)) for x, k, v in b.f['segs']]
                    if b.f['pend'] is o: b.f['pend'] = None
            return True
        if m in ('isCompleted', 'isSuccess'): return o.f['done']
        raise Unk('Work::%s' % m)

    # -- language
    def ev(self, n, env):
        if n['k'] == 'Enum' and 'cv' not in n: return K(int(n['v']))
        if n['k'] == 'Un' and n['op'] == '&':
            x = n['e']
            while x['k'] in ('Paren', 'ICast'): x = x['e']
            if x['k'] in ('FnRef', 'Ref') and (x.get('u') or x.get('g')) and x.get('d') not in env['v']: return ('fn', x.get('u') or x.get('g'))
            v = self.rd(self.ev(x, env))
            if isinstance(v, Obj): return v
            raise Unk('address')
        return Heap.ev(self, n, env)

    def copyof(self, v):
        if isinstance(v, ListV): return ListV([self.copyof(x) if isinstance(x, Obj) and x.cls in (NS + 'Reducer::Bucket',) else x for x in v.m])
        if isinstance(v, Obj) and v.cls.startswith(NS) and v.cls != NS + 'Work':
            o = Obj(v.cls)
            o.f = {k: self.copyof(x) if isinstance(x, (ListV,)) else x for k, x in v.f.items()}
            return o
        return v

    def call(self, n, env):
        fn = n.get('fn') or ''
        m = n.get('op') or fn.split('::')[-1]
        m = re.sub('<.*', '', m)
        A = lambda k=0: [self.val(x, env) for x in n.get('a', [])[k:]]
        if fn.endswith('Logger::log'): return None
        if fn.startswith('std::make_unique') or fn.startswith('std::make_shared'):
            t = re.search(r'_ptr<(?:const )?([\w:]+)', n['t']).group(1)
            return self.make(t, A(), n)
        if n.get('obj') is not None:
            if re.match(r'std::_*(shared_ptr|unique_ptr)', fn):
                l = self.ev(n['obj'], env)
                o = self.rd(l)
                if m == '=':
                    v = self.val(n['a'][0], env)
                    self.store(l, v)
                    return l
                if m in ('->', '*', 'get'):
                    if m != 'get' and o is None: raise Fault('null pointer dereferenced')
                    return o
                if m == 'operator bool': return o is not None
                if m == 'reset':
                    self.store(l, self.val(n['a'][0], env) if n.get('a') else None); return None
                raise Unk('pointer %s' % m)
            if fn.startswith('std::vector<'):
                l = self.ev(n['obj'], env)
                o = self.rd(l)
                if not isinstance(o, ListV): raise Unk('vector')
                if m == '=':
                    v = self.val(n['a'][0], env)
                    o.m[:] = list(self.copyof(v).m); return l
                if m in ('push_back', 'emplace_back'):
                    a = [self.val(x, env) for x in n['a']]
                    if len(a) == 1: o.m.append(a[0]); return None
                if m in ('back', 'front') and o.m: return Loc(o.m, len(o.m) - 1 if m == 'back' else 0)
                if m in ('[]', 'at'):
                    i = self.val(n['a'][0], env)
                    if isinstance(i, Lin) and i.const():
                        if not 0 <= i.c < len(o.m): raise Fault('a vector is indexed outside its elements')
                        return Loc(o.m, int(i.c))
                if m == 'clear': o.m.clear(); return None
                if m == 'resize':
                    a = A()
                    if len(a) == 2 and a[0].const():
                        while len(o.m) < a[0].c: o.m.append(a[1])
                        del o.m[int(a[0].c):]
                        return None
                return self.container(o, m, n, env)
            if fn.startswith(TEN + '::'):
                l = self.ev(n['obj'], env)
                o = self.rd(l)
                if m == '=':
                    v = self.val(n['a'][0], env)
                    self.store(l, v); return l
                if o is None: raise Fault('null pointer dereferenced')
                if not isinstance(o, Ten): raise Unk('tensor')
                return self.tensor(o, m, A(), n)
            o = None
            if fn.startswith(NS + 'DistributedProcessGroup::') or fn.startswith(NS + 'Work::') or fn.startswith('tinytorch::nn::Module::'):
                o = self.val(n['obj'], env)
                if o is None: raise Fault('null pointer dereferenced')
                if isinstance(o, Obj) and o.cls == NS + 'DistributedProcessGroup': return self.collective(m, A(), n)
                if isinstance(o, Obj) and o.cls == NS + 'Work': return self.work(o, m, A())
                if isinstance(o, Obj) and o.cls == 'tinytorch::nn::Module' or m in ('registerModule', 'registerModules'):
                    if m == 'parameters': return ListV(self.params)
                    if m in ('registerModule', 'registerModules'): return None
                    if m in ('forward', 'operator()', '()'):
                        self.log.append(('forward', A())); return Ten('plain', numel=S('out'), val=('out',))
                    raise Unk('Module::%s' % m)
        elif fn.startswith(TEN + '::'): return self.static(m, A())
        elif fn.startswith('tinytorch::op::') and m in ('divInplace', 'mulInplace'):
            a = A()
            return self.tensor(a[0], m, a[1:], n)
        elif n.get('op') in ('/=', '*=', '/', '*') and n.get('a') and len(n['a']) == 2:
            a = A()
            if isinstance(a[0], Ten): return self.tensor(a[0], n['op'], a[1:], n)
        return Heap.call(self, n, env)

    def make(self, t, a, n=None):
        if t not in self.P.classes: raise Unk('make %s' % t)
        o = Obj(t)
        r = self.P.classes[t]
        for f in r['fields']: o.f[f['n']] = self.zero(f)
        ct = [x for x in self.P.by_name.get(t + '::' + t.split('::')[-1], []) if x.get('ctor') and x.get('body') is not None and len(x['ps']) >= len(a) and a]
        if a:
            if len(ct) != 1: raise Unk('constructor of %s' % t)
            self.new(ct[0], o, a)
        return o

    def new(self, r, o, a):
        for f in self.P.classes[o.cls]['fields']: o.f.setdefault(f['n'], self.zero(f))
        ps = r['ps']
        if len(a) < len(ps):
            raise Unk('default argument')
        e = dict(this=o, v={p.get('id', p.get('d')): x for p, x in zip(ps, a)}, refs=set())
        for ini in r.get('inits') or []:
            if 'm' in ini: o.f[ini['m']] = self.val(ini['e'], e) if ini.get('e') else self.zero([f for f in self.P.classes[o.cls]['fields'] if f['n'] == ini['m']][0])
        try: self.st(r['body'], e)
        except _Ret: pass

    def zero(self, f):
        t = f['t']
        c = self.empty(t)
        if c is not None: return c
        if t == TEN: return Ten('none')
        i = f.get('init')
        if i is not None:
            try: return self.val(i, dict(this=None, v={}, refs=set()))
            except Unk: return None
        return None

    def construct(self, n, env):
        t = re.sub(r'^const ', '', n.get('t', ''))
        a = n.get('a', [])
        if t.startswith('std::vector<'):
            if n.get('li'):
                v = self.val(a[0], env)
                if isinstance(v, ListV): return v
                raise Unk('list')
            a2 = [x for x in a if not x.get('da')]
            if len(a2) == 1:
                v = self.val(a2[0], env)
                if isinstance(v, ListV): return v if n.get('mv') else self.copyof(v)
            if not a2: return ListV()
            raise Unk('vector')
        if 'shared_ptr<' in t or 'unique_ptr<' in t:
            return self.val(a[0], env) if a else None
        if t == TEN:
            if not a: return Ten('none')
            v = self.val(a[0], env)
            if isinstance(v, Ten): return v
            raise Unk('tensor')
        if t.startswith(('tinytorch::Options', 'tinytorch::Device', 'tinytorch::cuda::')):
            if n.get('cp') or n.get('mv'): return self.val(a[0], env)
            return Obj(t)
        if t.startswith(('tinytorch::ArrayView', 'tinytorch::SizeVector', 'tinytorch::ArrayN')) and a:
            return self.val(a[0], env)
        if 'basic_string' in t: return 'str'
        if t.startswith(('std::variant<', 'tinytorch::Scalar')) and len(a) >= 1: return self.val(a[0], env)
        if t.startswith(NS):
            if n.get('mv'): return self.val(a[0], env)
            if n.get('cp'): return self.copyof(self.val(a[0], env))
            return self.make(t, [self.val(x, env) for x in a])
        return Heap.construct(self, n, env)

    def fire(self, p, g):
        """the gradient of parameter p is complete: its hooks run"""
        for fn, ctx in p.f['hooks']:
            if not (isinstance(fn, tuple) and fn[0] == 'fn'): raise Unk('hook')
            r = self.P.funcs.get(fn[1])
            if r is None: raise Unk('hook')
            self.apply(r, None, [], None, pre=[ctx, g])


W = S('world')


def mkparams(h, k):
    out = []
    for i in range(k):
        n = S('n%d' % i)
        h.assume(n - K(1))
        p = Ten('param', numel=n, val=('p', i), grad=None, hooks=[])
        p.f['_name'] = 'p%d' % i
        out.append(p)
    return out


def begin(P, script_heap, k):
    h = script_heap
    h.dev = Obj('tinytorch::Device', type=S('devtype'), index=K(0))
    h.assume(W - K(2))
    h.params = mkparams(h, k)
    return h


def passes(h, first, prep, before=None):
    """two training steps, the gradients becoming ready in two different orders"""
    k = len(h.params)
    perms = list(permutations(range(k)))
    for step in (0, 1):
        order = perms[h.choose(len(perms), 'order')] if step == 0 else tuple(reversed(range(k)))
        prep(step)
        for p in h.params:
            if h.grads: p.f['grad'] = Ten('plain', numel=p.f['numel'], val=None)
        for b in h.bufs: b.f['n'] = 0
        for c, i in enumerate(order):
            p = h.params[i]
            p.f['grad'] = g = Ten('plain', numel=p.f['numel'], val=('g', step, i))
            h.fire(p, g)
            if c + 1 < k: h.partial(order[:c + 1])
        for i, p in enumerate(h.params):
            want = ('div', ('sum', ('g', step, i)))
            got = p.f['grad'].f['val']
            if got != want: raise Fault('after the backward pass of step %d the gradient of parameter %d is %s instead of the average over all replicas' % (step + 1, i, name(got)))
            if p.f['val'] != first(i): raise Fault('the backward pass changes the value of parameter %d' % i)


def name(v):
    if v is None: return 'missing'
    if v[0] == 'g': return 'the local gradient of parameter %d%s' % (v[2], '' if v[1] == 0 else ' (step %d)' % (v[1] + 1))
    if v[0] == 'p': return 'the local value of parameter %d' % v[1]
    if v[0] == 'div': return name(v[1]) + ' divided by the number of replicas'
    if v[0] == 'sum': return 'the sum over the replicas of ' + name(v[1])
    if v[0].startswith('root'): return 'the value on rank %s of %s' % (v[0][5:], name(v[1]))
    if len(v) > 1: return '%s of %s' % (v[0], name(v[1]))
    return {'unset': 'never written'}.get(v[0], v[0])


def setup(h, k, red):
    h.grads = False
    h.bufs = [b for b in buffers(red)]
    h.partial = lambda done: None


def buffers(red):
    return [b.f['flatBuffer'] for b in red.f.get('buckets_').m if isinstance(b, Obj) and isinstance(b.f.get('flatBuffer'), Ten)] if isinstance(red.f.get('buckets_'), ListV) else []


def run_reducer(P, ctor, k, cap=None):
    def go(h):
        begin(P, h, k)
        pg = Obj(NS + 'DistributedProcessGroup')
        red = Obj(NS + 'Reducer')
        c = S('cap')
        h.assume(c)
        h.new(ctor, red, [ListV(h.params), pg, c])
        for i, p in enumerate(h.params):
            if len(p.f['hooks']) != 1: raise Fault('parameter %d has %d gradient hooks instead of one' % (i, len(p.f['hooks'])))
        bk = red.f.get('buckets_')
        if isinstance(bk, ListV):
            for b in bk.m:
                ps = b.f.get('params')
                if isinstance(ps, ListV) and len(ps.m) > 1:
                    tot = K(0)
                    for p in ps.m: tot = tot + p.f['numel'].scale(4)
                    if not h.entails(c - tot): raise Fault('a bucket of %d parameters is larger than the byte limit it was given' % len(ps.m))
        setup(h, k, red)
        br = one(P, NS + 'Reducer::broadcastParameters')
        pr = one(P, NS + 'Reducer::prepareForBackward')
        h.apply(br, red, [], None, pre=[S('root')])
        for i, p in enumerate(h.params):
            if p.f['val'] != ('root root', ('p', i)): raise Fault('after the broadcast parameter %d holds %s instead of its value on the root rank' % (i, name(p.f['val'])))
        passes(h, lambda i: ('root root', ('p', i)), lambda s: h.apply(pr, red, [], None, pre=[]))
    return go


def run_module(P, ctor, k):
    def go(h):
        begin(P, h, k)
        pg = Obj(NS + 'DistributedProcessGroup')
        mod = Obj('tinytorch::nn::Module')
        dm = Obj(NS + 'DistributedModule')
        c = S('cap')
        h.assume(c)
        h.new(ctor, dm, [mod, pg, S('root'), c])
        red = [v for v in dm.f.values() if isinstance(v, Obj) and v.cls == NS + 'Reducer']
        if len(red) != 1: raise Unk('reducer')
        setup(h, k, red[0])
        for i, p in enumerate(h.params):
            if p.f['val'] != ('root root', ('p', i)): raise Fault('a wrapped module starts with %s for parameter %d instead of its value on the root rank' % (name(p.f['val']), i))
        fw = one(P, NS + 'DistributedModule::forward')
        inp = Ten('plain', numel=S('inn'), val=('in',))

        def step(s):
            h.log.clear()
            r = h.apply(fw, dm, [], None, pre=[inp])
            f = [e for e in h.log if e[0] == 'forward']
            if len(f) != 1 or f[0][1][0] is not inp: raise Fault('forward does not run the wrapped module once on its input')
            if not (isinstance(r, Ten) and r.base().f.get('val') == ('out',)): raise Fault('forward does not return what the wrapped module computes')
        passes(h, lambda i: ('root root', ('p', i)), step)
    return go


def one(P, n):
    r = P.by_name.get(n, [])
    if len(r) != 1 or r[0].get('body') is None: raise Unk(n)
    return r[0]


def check_ddp(res):
    P = res.p
    res.rule = ('abstract interpretation of the gradient reducer over symbolic parameter sizes and bucket limits and every order of gradient readiness: after a step every gradient is the sum of the replicas\' '
                'gradients of the same parameter divided by the number of replicas, once; no section overlaps or leaves the flat buffer; no buffer is used while its collective operation is under way')
    n = 0
    for cls, run in (('Reducer', run_reducer), ('DistributedModule', run_module)):
        ct = [r for r in P.by_name.get('%s%s::%s' % (NS, cls, cls), []) if r.get('ctor') and r.get('body') is not None and len(r['ps']) >= 3]
        for r in P.funcs.values():
            if (r.get('cls') or '') == NS + cls and r.get('body') is not None: res.fn(r)
        if len(ct) != 1:
            res.undecided.append(cls)
            continue
        n += 1
        for k in (1, 2, 3) if cls == 'Reducer' else (2,):
            with res.instance('%s/%d' % (cls, k)):
                paths = 0
                for h, out in explore(P, run(P, ct[0], k), heap=DHeap):
                    if isinstance(out, Fault):
                        res.bad('%s/%s' % (cls, kind(str(out))), loc_of(ct[0]), '%s with %d parameters: %s' % (cls, k, out))
                    elif out is None: res.ok('%s: %d parameters' % (cls, k))
                    paths += 1
                res.counts['paths'] = res.counts.get('paths', 0) + paths
    res.floor('classes', n, 1)
    res.assumptions += ['collective operations deliver the sum / the root\'s value (NCCL is outside the analysis)', 'hooks run once per backward pass with the complete gradient (decided by C07)',
                        'up to three parameters; sizes and the bucket limit are unbounded']


def kind(s):
    return re.sub(r'[^a-z]+', '-', re.sub(r'\d+|of parameter|\bn\d+\b', '', s.lower()))[:60].strip('-')
