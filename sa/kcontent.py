"""Result of a copying kernel in a finite model: the closed-form stores of the kernel (address, value, counts, conditions) are
tabulated over the model's index space and compared with the operator's definition."""
import re
from kev import *
import kev


class TModel(Model):
    """model with lists of tensors, index tensors and storage offsets"""
    fixed = {}      # contents of finished intermediate tensors
    live = None     # (tensor, contents so far, initial contents) of a result that is read back while it is built

    def canon(self, t):
        t = self.K.root(t)
        if t.op == 'elem' and t.a[1].op != 'c':
            if t.a[0].op == 'param': t = mk('elem', t.a[0], C(self.v(self.K.res(t.a[1], ()) if has_hav(t.a[1]) else t.a[1])))
            else:
                r = self.pick(t)
                if r is not None: t = r
        if t.op == 'phi': t = self.canon(t.a[1] if self.v(self.K.res(t.a[0], ())) else t.a[2])
        return t

    def pick(self, t):
        """element of a list of freshly created tensors"""
        l = t.a[0]
        if l.op == 'hav': l = self.K.res(l, ())
        return None

    def shape(self, t):
        t = self.canon(self.K.shapeof(self.canon(t)))
        s = self.shapes.get(t)
        if s is not None: return s
        a = self.K.shapearg(t)
        if a is None: raise NoEval('shape of %s' % show(t)[:60])
        free = [x for x in subterms(t) if x.op == 'it']
        if free: return [int(x) for x in self.lst(a)]
        old, self.its = self.its, {}
        try:
            s = self.shapes[t] = [int(x) for x in self.lst(a)]
        finally:
            self.its = old
        if any(x < 0 for x in s): raise Skip()
        return s

    def v(self, t):
        if t.op == 'tcall' and t.a[0] == 'storageOffset': return self.soff(self.canon(t.a[1]))
        if t.op == 'tcall' and t.a[0] == 'isScalar': return len(self.shape(t.a[1])) == 0
        if t.op == 'tcall' and t.a[0] in ('dtype', 'device', 'options', 'defined', 'isCpu'): raise Assume()
        if t.op == 'enum': raise Assume()
        if t.op == 'call' and t.a[1] is not None and not t.a[2]:
            if t.a[0].startswith('tinytorch::Scalar::to') and t.a[1] in self.params: return self.params[t.a[1]]
            if t.a[0].startswith('tinytorch::Tensor::item'): return self.load(self.K.root(t.a[1]), 0)
            if t.a[0].startswith('std::optional') and t.a[0].split('::')[-1] == 'has_value': return bool(self.v(t.a[1]))
        d = draw(t)
        if d is not None: return drawn(d[0], [float(self.v(x)) for x in d[1]])
        if t.op == 'toint' and not any(x.op in ('ld', 'hav') or x.op == 'call' and '_distribution' in x.a[0] for x in subterms(t)): return int(self.v(t.a[0]))
        if t.op == 'call' and t.a[0].endswith('::empty') and t.a[1] is not None and not t.a[2]: return len(self.lst(t.a[1])) == 0
        return Model.v(self, t)

    def soff(self, t): return int(h('so', self.seed, t.id) * 997) % 4

    def load(self, root, a):
        root = self.canon(root)
        if root in self.fixed:
            c = self.fixed[root]
            if not 0 <= a < len(c): raise OOB()
            if isinstance(c[a], str): raise Garbage(c[a])
            return c[a]
        if self.live is not None and (root is self.live[0] or created(root) is not None and created(root) == created(self.live[0])):
            mem, init = self.live[1:]
            n = math.prod(self.shape(root))
            if not 0 <= a < n: raise OOB()
            x = mem[a] if a in mem else init(a)
            if isinstance(x, str): raise Garbage(x)
            return x
        if root in self.shapes or self.K.shapearg(root) is None:
            n = math.prod(self.shape(root))
            if not 0 <= a < n: raise OOB()
        b = self.intb.get(root) if getattr(self, 'intb', None) else None
        if b is not None:
            x = int(h(self.seed, 'i', root.id, a) * 100003) % b[1]
            return x - b[1] if b[0] and x % 2 else x
        return 1.0 + root.id % 1000 + a / 1024.0


DIST = ('uniform_real_distribution', 'normal_distribution', 'bernoulli_distribution')


def drawn(dist, a):
    """a draw; the scaled distributions are the unit one moved and stretched"""
    if dist == 'normal_distribution':
        m, s = (list(a) + [0., 1.][len(a):])[:2]
        return m + s * h('draw', dist)
    if dist == 'uniform_real_distribution':
        x, y = (list(a) + [0., 1.][len(a):])[:2]
        return x + (y - x) * h('draw', dist)
    return h('draw', dist, *[round(x, 9) for x in a])


def draw(t):
    """(distribution, its parameters, generator) of a random draw"""
    if t.op != 'call' or not t.a[0].endswith('_distribution::operator()') and not re.search(r'_distribution<[^:]*>::operator\(\)$', t.a[0]) or t.a[1] is None or len(t.a[2]) != 1: return None
    o = t.a[1]
    while o.op in ('mut', 'mutd'): o = o.a[0]
    if o.op != 'new': return None
    k = o.a[0].split('::')[-1].split('<')[0]
    if k not in DIST: return None
    return k, o.a[1], t.a[2][0]


class Assume(NoEval): pass


class Garbage(Exception): pass


def created(t):
    """creation point of a fresh tensor"""
    if t.op != 'call' or t.a[1] is not None or any(x.op == 'at' for x in t.a[2]) or len(t.a) < 4: return None
    return t.a[0], t.a[3]


def loopfree(m, c):
    """condition on a value left by a loop"""
    for l, info in m.K.I.loopinfo.items():
        lc = info['cond']
        if lc is not None and (c is lc or c is mk('not', lc)): return mk('enum', 'loop', 'exit')
    return m.K.res(c, ())


def istrue(m, c, p):
    if p and c.op == 'and': return all(istrue(m, x, True) for x in c.a)
    if any(x.op == 'hav' for x in subterms(c)) and (c.op == 'not' or c.op in ('<', '<=', '==', 'inrange')): c = loopfree(m, c)
    try:
        return bool(m.v(c)) == p
    except Assume:
        return True


def base(m, root, a):
    live, m.live = m.live, None
    try:
        return m.load(root, a)
    finally:
        m.live = live


def run_stores(K, ss, m, init, root=None):
    """contents after all stores, in program order; init(a) gives the contents before"""
    mem = {}
    if K.live and root is not None: m.live = (root, mem, init or (lambda a: base(m, root, a)))

    def go(ss, depth):
        i = 0
        while i < len(ss):
            s = ss[i]
            if len(s.nest) == depth:
                if all(istrue(m, c, p) for c, p in s.conds):
                    a = m.v(s.addr)
                    if a != int(a): raise NoEval('address')
                    mem[int(a)] = value(m, s.val)
                i += 1
                continue
            l, N = s.nest[depth]
            j = i
            while j < len(ss) and len(ss[j].nest) > depth and ss[j].nest[depth][0] == l: j += 1
            # conditions of the first store that do not depend on deeper counters decide whether the loop is entered at all
            for k in range(m.count(N)):
                m.its[l] = k
                go(ss[i:j], depth + 1)
            m.its.pop(l, None)
            i = j
    old = m.its
    m.its = {}
    try:
        go([s for s in ss], 0)
    finally:
        m.its = old
        m.live = None
    return mem


def value(m, t):
    try:
        return m.v(t)
    except OOB:
        return 'an access outside the tensor'
    except Garbage as x:
        return str(x)


def active(K, m, st):
    """is this return reached in the model"""
    lc = set()
    for l, info in K.I.loopinfo.items():
        c = info['cond']
        if c is not None: lc.update([c] + list(c.a if c.op in ('not', 'and') else ()))
    for c, p in getattr(st, 'gl', ()) or ():
        if c.op == 'inrange' or c in lc or any(x.op == 'hav' for x in subterms(c)): continue
        if not istrue(m, K.res(c, ()), p): return False
    return True


class Refused(Exception): pass


def refusal(K, m):
    """the call that ends the program in this model, if every condition on the way to it is known to hold"""
    for e in K.I.evs:
        if e.kind not in ('noreturn', 'trap') or e.loops or not e.gl: continue
        try:
            if all(not any(x.op == 'hav' for x in subterms(c)) and bool(m.v(K.res(c, ()))) == p for c, p in e.gl): return e
        except (Assume, Skip, NoEval, Undecided, Garbage): continue
    return None


def returned(K, m):
    out = [(st, t) for st, t, e in K.rets if active(K, m, st)]
    if not out:
        e = refusal(K, m)
        if e is not None: raise Refused(e)
    if len(out) != 1: raise NoEval('%d returns in a model' % len(out))
    t = out[0][1]
    while t.op == 'phi':
        c = K.res(t.a[0], ())
        t = t.a[1] if istrue(m, c, True) else t.a[2]
    return t


def stores_on(K, root):
    ss = [s for s in K.stores if s.root is root or s.root is UNKROOT]
    for s in ss:
        if s.err is not None: raise s.err
    return ss


def fresh_init(K, root, m):
    """contents of a result before the kernel stores into it"""
    if root.op == 'call':
        n = root.a[0].split('::')[-1]
        if n in ('zeros', 'zerosLike'): return lambda a: 0
        if n in ('ones', 'onesLike'): return lambda a: 1
        if n in ('empty', 'emptyLike'): return lambda a: 'an unwritten element'
        if n in ('clone', 'detach') and root.a[1] is not None:
            src = root.a[1]
            return lambda a: m.load(K.root(src), a)
    if root.op == 'param': return lambda a: m.load(root, a)
    if root.op == 'new' and root.a[0] == 'tinytorch::Tensor' and len(root.a[1]) == 2: return lambda a: 'an unwritten element'
    raise NoEval('result %s' % show(root)[:60])


def tensor_value(K, t, m):
    """(shape, contents) of a returned tensor"""
    t = K.root(t)
    if t.op == 'phi': return tensor_value(K, t.a[1] if istrue(m, K.res(t.a[0], ()), True) else t.a[2], m)
    if t.op == 'call' and t.a[0].split('::')[-1].split('<')[0] in ('view', 'reshape') and t.a[0].startswith('tinytorch::op::'):
        s, v = tensor_value(K, t.a[2][0], m)
        return m.lst(K.res(t.a[2][1], ())), v
    if t.op == 'new' and t.a[0] == 'tinytorch::Tensor' and len(t.a[1]) == 4:
        sh, _, stg, off = t.a[1]
        while stg.op == 'deref' and stg.a[0].op in ('addr', 'addrof'): stg = stg.a[0].a[0]
        src = stg.a[1] if stg.op == 'tcall' and stg.a[0] == 'storage' or stg.op == 'call' and stg.a[0].endswith('::storage') else None
        if src is None: raise NoEval('storage ' + show(stg)[:100])
        src = K.root(src)
        shape = [int(x) for x in m.lst(K.res(sh, ()))]
        o = m.v(K.res(off, ())) - m.soff(m.canon(src))
        out = []
        for i in range(math.prod(shape)):
            try:
                out.append(m.load(src, o + i))
            except OOB:
                out.append('an access outside the tensor')
        return shape, out
    if t.op == 'call' and t.a[0] == 'tinytorch::Tensor::scalar': return [], [m.v(K.res(t.a[2][0], ()))]
    if t.op == 'param':
        s = m.shape(t)
        return s, [m.load(t, i) for i in range(math.prod(s))]
    shape = m.shape(t)
    ini = fresh_init(K, t, m)
    mem = run_stores(K, stores_on(K, t), m, ini, t)
    n = math.prod(shape)
    bad = [a for a in mem if not 0 <= a < n]
    shape = reshaped(K, t, m, shape)
    if bad: return shape, 'a write at element %s of %d' % (bad[0], n)
    return shape, [mem[i] if i in mem else ini(i) for i in range(n)]


def reshaped(K, t, m, shape):
    """shape after the in-place shape changes applied to a result"""
    for e in K.I.evs:
        if e.kind != 'call' or e.fn.split('::')[-1] != 'reshape_' or e.obj is None or K.root(e.obj) is not t: continue
        if e.loops: raise NoEval('reshape in a loop')
        if not all(istrue(m, c, p) for c, p in K.conds(e)): continue
        a = e.args[0]
        while a.op in ('mut', 'mutd'): a = a.a[0]
        s = [] if a.op == 'new' and not a.a[1] else [int(x) for x in m.lst(K.res(a, ()))]
        if math.prod(s) != math.prod(shape): raise NoEval('reshape')
        shape = s
    return shape


def inplace_value(K, t, m):
    n = math.prod(m.shape(t))
    mem = run_stores(K, stores_on(K, t), m, None, t)
    bad = [a for a in mem if not 0 <= a < n]
    if bad: return 'a write at element %s of %d' % (bad[0], n)
    return [mem[i] if i in mem else m.load(t, i) for i in range(n)]


def strides(s):
    out = [1] * len(s)
    for i in range(len(s) - 2, -1, -1): out[i] = out[i + 1] * s[i + 1]
    return out


def coords(i, s):
    return [(i // st) % n if n else 0 for st, n in zip(strides(s), s)]


def lin_(c, s): return sum(x * y for x, y in zip(c, strides(s)))


def same_lists(x, y):
    return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(a == b or (not isinstance(a, str) and not isinstance(b, str) and close(a, b)) for a, b in zip(x, y))


def describe(m, got, want):
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        for i, (a, b) in enumerate(zip(got, want)):
            if not same_lists([a], [b]): return 'element %d is %s' % (i, src_name(m, a))
    return 'result is %s' % (str(got)[:80],)


def src_name(m, a):
    return a if isinstance(a, str) else 'taken from another position'


def mdesc(m):
    def nm(k):
        if k.op == 'param': return str(k.a[1])
        if k.op == 'elem': return '%s[%s]' % (nm(k.a[0]), k.a[1].a[0])
        return None
    o = ['%s %s' % (nm(k), v) for k, v in m.shapes.items() if nm(k)]
    p = ['%s=%s' % (nm(k), v) for k, v in m.params.items() if nm(k) and not (isinstance(v, list) and all(x is None for x in v))]
    return ', '.join(o + p)
