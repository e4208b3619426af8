"""Kernels over lanes: softmax family and normalisation layers."""
from kern import *
from kev import decide
from alg import v, call, add, sub, mul, div, ng, ite

ONE = C(1)


def exp(x): return call('exp', x)


def ld(t, a): return mk('ld', t, a)


def SUM(n, f, l='S'): return mk('SUM', l, n, f(it(l)))


def final(K, root, res=None):
    """the stores that decide the final content of a buffer: the last store to each address set"""
    return [s for s in K.stores if s.root is root]


def result(K):
    rs = {K.root(x) for _, x, _ in K.rets}
    return rs.pop() if len(rs) == 1 else None


def dimspec(K, t, dim):
    """lane geometry of dimension dim of tensor t: (size, inner size, outer size)"""
    t = K.shapeof(t)
    nd = mk('nd', dim, t)
    D = mk('sz', t, nd)
    inner = mk('PROD', 'I', intnorm(binop('-', binop('-', mk('dim', t), C(1)), nd)), mk('sz', t, intnorm(binop('+', binop('+', nd, C(1)), it('I')))))
    outer = mk('PROD', 'O', nd, mk('sz', t, it('O')))
    return D, inner, outer


def ieq(x, y):
    """equality of integer expressions"""
    a, b = KConv().conv(x), KConv().conv(y)
    return alg.same(a, b)


def understood(t):
    return not any(x.op in ('hav', 'unk', 'self', 'tcall') for x in subterms(t))


def lane_store(K, s, D, I, Oz, res, key):
    """check that store s covers every element of the tensor exactly through (outer, lane, inner) counters; returns the lane counter"""
    nest = list(s.nest)
    lane = [l for l, n in nest if ieq(n, D)]
    # the lane counter is the one whose stride is the inner size
    for l in lane:
        c = coef(s.addr, it(l))
        if c is None: continue
        if not ieq(c[0], I): continue
        rest = [(m, n) for m, n in nest if m != l]
        if len(rest) != 2: raise Unk('loop nest')
        for (a, na), (b, nb) in (rest, rest[::-1]):
            if ieq(na, Oz) and ieq(nb, I):
                want = add(mul(mul(it(a), D), I), it(b))
                if ieq(c[1], want): return l
                raise Unk('lane base') if not understood(c[1]) else Bad('coverage', 'lane base address %s' % show(c[1])[:200])
        raise Bad('coverage', 'the lanes visited are not all (outer, inner) pairs: %s' % ', '.join(show(n)[:60] for m, n in rest))
    if not lane: raise Bad('coverage', 'no loop visits the whole lane')
    raise Bad('coverage', 'elements of a lane are not visited with the stride of the dimension')


class Bad(Exception):
    def __init__(self, k, m):
        Exception.__init__(self, m)
        self.k, self.m = k, m


def lane_kernels(res, P, O):
    n = 0
    for op in ('softmax', 'softmaxOut', 'logSoftmax', 'logSoftmaxOut', 'softmaxBackward', 'logSoftmaxBackward'):
        for dt in ('Float32', 'Float16', 'BFloat16'):
            r = O.table.get((op, 'CPU', dt))
            if r is None: continue
            n += 1
            with res.instance('%s/%s' % (op, dt)): softmax(res, P, r, op, dt)
    for op in ('layerNorm', 'rmsNorm'):
        for dt in ('Float32', 'Float16', 'BFloat16'):
            r = O.table.get((op, 'CPU', dt))
            if r is None: continue
            n += 1
            with res.instance('%s/%s' % (op, dt)): norm(res, P, r, op, dt)
    res.floor('kernels', n, 12)


def last(K, root):
    ss = [s for s in K.stores if s.root is root]
    for s in ss:
        if s.err is not None: raise s.err
    if not ss: raise Unk('no store')
    return ss[-1], ss


def softmax(res, P, r, op, dt):
    K = Kern(P, r.fn)
    res.fn(r.fn)
    key = '%s/%s' % (op, dt)
    where = loc_of(r.fn)
    back = op.endswith('Backward')
    out = result(K) if not op.endswith('Out') else K.ps[0]
    ins = K.ps[1:] if op.endswith('Out') else K.ps
    if out is None: raise Unk('result')
    t = K.shapeof(ins[0])
    dim = ins[-1]
    D, I, Oz = dimspec(K, t, dim)
    s, ss = last(K, out)
    if any(c for c in s.conds if 'shape' not in show(c[0]) and not assertish(c[0])): raise Unk('conditional store')
    try:
        l = lane_store(K, s, D, I, Oz, res, key)
    except Bad as b:
        res.bad(key + '/' + b.k, evloc(s.e), '%s[%s] does not produce every element of its lanes: %s' % (op, dt, b.m))
        return
    A = lambda k: renorm(subst(s.addr, {it(l): k}))
    k = it(l)
    if back:
        g, y = ins[0], ins[1]
        if op.startswith('soft'): want = mul(ld(y, A(k)), sub(ld(g, A(k)), SUM(D, lambda j: mul(ld(y, A(j)), ld(g, A(j))))))
        else: want = sub(ld(g, A(k)), mul(exp(ld(y, A(k))), SUM(D, lambda j: ld(g, A(j)))))
    else:
        x = ins[0]
        Z = SUM(D, lambda j: exp(ld(x, A(j))))
        want = div(exp(ld(x, A(k))), Z) if op.startswith('soft') else sub(ld(x, A(k)), call('log', Z))
    decide(res, K, r, s, s.val, want, key + '/formula', '%s[%s] does not compute its definition over the lane' % (op, dt))
    if not back:
        bad = None
        for q in ss:
            for x in subterms(q.val):
                if x.op == 'call' and alg.stdfn(x) == 'exp':
                    a = x.a[2][0]
                    bad = bad or unshifted(a, ins[0], D)
        res.check(bad is None, key + '/stable', evloc(s.e), '%s[%s] exponentiates values that are not shifted by the maximum of their lane: %s' % (op, dt, bad), sample='%s: exponent is x - max(lane)' % key)


def unshifted(a, x, D):
    if a.op != '-' or len(a.a) != 2: return show(a)[:120]
    l, m = a.a
    if l.op != 'ld' or l.a[0] is not x: return show(a)[:120]
    if m.op != 'MAX' or not identity(m.a[3], 'MAX'): return 'shift %s' % show(m)[:120]
    if not ieq(m.a[1], D): return 'maximum over %s elements' % show(m.a[1])[:80]
    if m.a[2].op != 'ld' or m.a[2].a[0] is not x: return 'shift %s' % show(m)[:120]
    return None


def assertish(t):
    return any(x.op in ('dim', 'sz', 'nd', 'numel') or (x.op == 'call' and x.a[0].endswith(('::size', '::shape', '::front', '::back', '::options', '::dim'))) or x.op == 'len' for x in subterms(t))


def norm(res, P, r, op, dt):
    K = Kern(P, r.fn)
    res.fn(r.fn)
    key = '%s/%s' % (op, dt)
    out = result(K)
    x = K.ps[0]
    ten = [p for p, d in zip(K.ps, r.fn['ps']) if strip_cvref(d['t']) == 'tinytorch::Tensor']
    w = ten[1]
    b = ten[2] if len(ten) > 2 else None
    eps = K.ps[-1]
    t = K.shapeof(x)
    D = mk('sz', t, intnorm(binop('-', mk('dim', t), C(1))))
    s, ss = last(K, out)
    nest = list(s.nest)
    l = None
    for m, n in nest:
        if ieq(n, D):
            c = coef(s.addr, it(m))
            if c is not None and cval(c[0]) == 1: l = m
    if l is None:
        res.bad(key + '/coverage', evloc(s.e), '%s[%s]: no loop visits a whole row' % (op, dt))
        return
    rest = [(m, n) for m, n in nest if m != l]
    if len(rest) != 1: raise Unk('loop nest')
    row = it(rest[0][0])
    rows = mk('/', mk('numel', t), D)
    c = coef(s.addr, it(l))
    res.check(ieq(rest[0][1], rows) and ieq(c[1], mul(row, D)), key + '/coverage', evloc(s.e), '%s[%s] does not visit every row: %s rows, row base %s' % (op, dt, show(rest[0][1])[:80], show(c[1])[:80]))
    A = lambda k: renorm(subst(s.addr, {it(l): k}))
    k = it(l)
    X = lambda j: ld(x, A(j))
    if op == 'layerNorm':
        mean = div(SUM(D, X), D)
        var = div(mk('SUM', 'V', D, mul(sub(X(it('V')), mean), sub(X(it('V')), mean))), D)
        val = div(sub(X(k), mean), call('sqrt', add(var, eps)))
    else:
        val = div(X(k), call('sqrt', add(div(SUM(D, lambda j: mul(X(j), X(j))), D), eps)))
    for wd in (True, False):
        for bd in ((True, False) if b is not None else (False,)):
            want = val
            if wd: want = mul(want, ld(w, k))
            if bd: want = add(want, ld(b, k))
            got = mode(K, s.val, {w: wd, b: bd})
            decide(res, K, r, s, got, want, key + '/formula', '%s[%s] (%s weight%s) does not compute its definition' % (op, dt, 'with' if wd else 'no', '' if b is None else ', with bias' if bd else ', no bias'))


def mode(K, t, defd):
    """value when the given optional tensors are (not) defined"""
    def truthof(c):
        if c.op == 'not':
            r = truthof(c.a[0])
            return None if r is None else not r
        if c.op == 'c': return bool(c.a[0])
        if c.op == 'tcall' and c.a[0] == 'defined': return defd.get(c.a[1])
        if c.op == 'tcall' and c.a[0] == 'dataPtr': return True
        if c.op == 'null': return False
        if c.op == 'phi':
            q = truthof(c.a[0])
            return None if q is None else truthof(c.a[1] if q else c.a[2])
        if c.op == 'bool': return truthof(c.a[0])
        if c.op in ('and', 'or'):
            x = [truthof(y) for y in c.a]
            if None in x: return None
            return all(x) if c.op == 'and' else any(x)
        return None

    def f(x):
        if x.op == 'phi':
            q = truthof(x.a[0])
            if q is not None: return x.a[1] if q else x.a[2]
        return None
    return renorm(rewrite(t, f))


def check_lane(res):
    P = res.p
    O = Ops(P)
    res.rule = ('every registered softmax/log-softmax (forward, out, backward) and normalisation kernel stores, for every element of every lane, exactly its definition over that lane; '
                'loop-carried values are solved as recurrences and compared with the definition as formulas')
    lane_kernels(res, P, O)
