"""Reductions: sum, mean, variance, min/max and their positions, over everything or over sets of dimensions."""
from kern import *
import kev
from kev import models, decide, wit
from c_lane import ld
from alg import add, sub, mul, div

ONE = C(1)
FLT = ('Float32', 'Float16', 'BFloat16')


def resolve(K, t): return K.res(t, ())


def results(K):
    """(tensor terms) returned for a non-scalar input"""
    out = []
    for _, t, g in K.rets: out.append(t)
    return out


def strip(t):
    """drop the branch for scalar inputs"""
    while t.op == 'phi':
        c, x, y = t.a
        ng_ = c.op == 'not'
        if ng_: c = c.a[0]
        if not scalarcond(c): break
        t = x if ng_ else y
    return t


def scalarcond(c): return c.op == 'call' and c.a[0].endswith('::isScalar')


def nonscalar(K):
    out = []
    for st, t, e in K.rets:
        gl = getattr(st, 'gl', ()) or ()
        if any(scalarcond(c) and p for c, p in gl): continue
        if any(c.op == 'not' and scalarcond(c.a[0]) and not p for c, p in gl): continue
        t = strip(t)
        if t.op == 'new' and not t.a[1]: continue     # {} after an assertion
        if t not in out: out.append(t)
    return out


def scalarret(K):
    out = []
    for st, t, e in K.rets:
        gl = getattr(st, 'gl', ()) or ()
        if t.op == 'phi':
            c, x, y = t.a
            if c.op == 'not' and scalarcond(c.a[0]): out.append(y)
            elif scalarcond(c): out.append(x)
        elif any(scalarcond(c) and p for c, p in gl): out.append(t)
    return out


def parts(t):
    """components of a returned pair"""
    if t.op == 'new' and 'pair' in t.a[0] and len(t.a[1]) == 2: return list(t.a[1])
    return [t]


def factor(K, root, seq):
    """scale applied to the result after its last store"""
    f = None
    for e in K.I.evs:
        if e.kind != 'call' or e.seq < seq or not e.fn.startswith('tinytorch::'): continue
        n = e.fn.split('::')[-1].split('<')[0]
        args = [K.root(a) for a in e.args or () if isinstance(a, T)]
        obj = K.root(e.obj) if e.obj is not None else None
        if root not in args[:1] and obj is not root: continue
        if n in ('mulInplace', 'divInplace') and len(args) == 2 or n in ('operator*=', 'operator/=') and len(args) == 1:
            x = args[-1]
            v = scalarval(x)
            if v is None: raise Unk('scale')
            if e.loops: raise Unk('scale in loop')
            v = K.res(v, e.loops)
            if 'div' in n or '/' in n: v = div(C(1.0), v)
            f = v if f is None else mul(f, v)
        elif n.endswith(('Inplace', 'Out', 'Inplace_')) or n.startswith(('fill', 'operator')) or n.endswith('_'): raise Unk('result modified by %s' % n)
    return f


def scalarval(x):
    if x.op == 'call' and x.a[0].endswith('Tensor::scalar') and x.a[2]:
        v = x.a[2][0]
        if v.op == 'new' and v.a[0].endswith('Scalar') and len(v.a[1]) == 1: return v.a[1][0]
        return v if v.op != 'new' else None
    if x.op == 'new' and x.a[0].endswith('Scalar') and len(x.a[1]) == 1: return x.a[1][0]
    return None


def axisset(K, dims, t):
    """0/1 indicator array of the reduced dimensions, from the program's own scatter; dims is the list parameter"""
    return None


def lastdim(K, dimterm, t):
    return mk('nd', dimterm, t)


def stores_of(K, root):
    ss = [s for s in K.stores if s.root is root]
    for s in ss:
        if s.err is not None: raise s.err
    return ss


def relevant(s):
    """conditions that are not assertions about shapes, dtypes or ranges"""
    out = []
    for c, p in s.conds:
        if any(x.op == 'tcall' and x.a[0] in ('isScalar', 'defined', 'dtype', 'options', 'device', 'shape') for x in subterms(c)): continue
        if any(x.op == 'call' and x.a[0].split('::')[-1] in ('empty', 'defined') for x in subterms(c)): continue
        if any(x.op in ('nd', 'dim', 'len', 'sz') for x in subterms(c)): continue
        out.append((c, p))
    return out


def shape_check(res, K, r, key, root, axis, keep, t):
    """result shape: reduced dimensions dropped, or kept with size 1"""
    sh = K.shapearg(root)
    if sh is None: raise Unk('result shape')
    D = mk('dim', t)
    try:
        q = K.res(sh, ())
    except Undecided:
        q = sh
    while q.op in ('mut', 'mutd'): q = q.a[0]
    ok = False
    if q.op == 'APPS' and (q.a[3].op in ('mut', 'new')):
        l = q.a[0]
        try:
            want = phi(axis(it(l)), phi(keep, ONE, NONE), mk('sz', t, it(l)))
            i0 = q.a[3]
            while i0.op in ('mut', 'mutd'): i0 = i0.a[0]
            ok = i0.op == 'new' and not i0.a[1] and same_int(q.a[2], want) and same_int(q.a[1], D)
        except Undecided:
            ok = False
    if ok:
        res.ok('%s: result shape' % key)
        return

    def want(m):
        out = []
        for d, n in enumerate(m.shape(t)):
            old = m.its
            m.its = {'@d': d}
            a = m.v(axis(it('@d')))
            m.its = old
            if not a: out.append(n)
            elif m.v(keep): out.append(1)
        return out
    w = kev.lists_differ(K, sh, want, models(K, r.fn))
    if isinstance(w, dict): res.bad(key + '/shape', loc_of(r.fn), '%s allocates a result of the wrong shape: %s' % (key, wit(w)))
    else: raise Unk('%s/shape' % key)


def reduce_all(res, P, r, op, dt):
    K = Kern(P, r.fn)
    res.fn(r.fn)
    t = K.ps[0]
    rets = nonscalar(K)
    if len(rets) != 1: raise Unk('returns')
    key = '%s/%s' % (op, dt)
    outs = [K.root(x) for x in parts(rets[0])]
    N = mk('numel', t)
    X = lambda l: ld(t, it(l))
    S = mk('SUM', 'a', N, X('a'))
    if op == 'varMean':
        var, mean = outs
        sv = scalarval(var)
        f = factor(K, var, 0)
        if sv is not None: val, s = K.res(sv, ()), None
        else:
            ss = stores_of(K, var)
            if len(ss) != 1: raise Unk('stores')
            s, val = ss[0], ss[0].val
        val = expandmean(K, val, t)
        if f is not None: val = mul(f, val)
        unb = K.ps[1]
        M = div(S, N)
        for u in (True, False):
            want = div(mk('SUM', 'v', N, mul(sub(X('v'), M), sub(X('v'), M))), sub(N, C(1.0)) if u else N)
            got = renorm(rewrite(val, lambda x: (x.a[1] if u else x.a[2]) if x.op == 'phi' and x.a[0] is unb else (x.a[2] if u else x.a[1]) if x.op == 'phi' and x.a[0].op == 'not' and x.a[0].a[0] is unb else None))
            decide(res, K, r, None, got, want, key + '/formula/%s' % ('unbiased' if u else 'biased'), '%s[%s] %s variance is not sum((x-mean)^2)/%s' % (op, dt, 'unbiased' if u else 'biased', '(n-1)' if u else 'n'))
        if mean.op == 'call' and mean.a[0].endswith('op::mean'):
            res.check(K.root(mean.a[2][0]) is t, key + '/mean', loc_of(r.fn), 'varMean returns the mean of another tensor')
        else: raise Unk('mean')
        return
    if len(outs) != 1: raise Unk('results')
    ss = stores_of(K, outs[0])
    if len(ss) != 1: raise Unk('stores')
    s = ss[0]
    if relevant(s) or s.nest: raise Unk('conditional or repeated store')
    val = s.val
    f = factor(K, outs[0], s.e.seq)
    if f is not None: val = mul(f, val)
    if op == 'sum': want = S
    elif op == 'mean': want = div(S, N)
    else:
        ex = op[-3:].upper()
        q = val
        if op in ('max', 'min'):
            ok = q.op == ex and len(q.a) > 3 and same_int(q.a[1], N) and q.a[2].op == 'ld' and q.a[2].a[0] is t and same_int(q.a[2].a[1], it(q.a[0])) and identity(q.a[3], ex)
            if not ok and q.op == ex and len(q.a) > 3 and firstelem(q, t, N): ok = True
            want = mk(ex, 'a', N, X('a'))
        else:
            ok = q.op == 'ARG' + ex + 'F' and len(q.a) == 5 and same_int(q.a[1], N) and q.a[2].op == 'ld' and q.a[2].a[0] is t and same_int(q.a[2].a[1], it(q.a[0])) and same_int(q.a[4], it(q.a[0])) and cval(q.a[3]) == 0
            if not ok and q.op == 'ARG' + ex + 'F' and len(q.a) == 6 and q.a[5].op == 'start' and cval(q.a[3]) == 0 and firstelem(mk(ex, q.a[0], q.a[1], q.a[2], q.a[5].a[0]), t, N):
                ok = q.a[2].op == 'ld' and same_int(q.a[4], q.a[2].a[1])
            want = mk('ARG' + ex + 'F', 'a', N, X('a'), C(0), it('a'))
        if ok: res.ok('%s: %s' % (key, show(want)[:100]))
        else: semantic(res, K, r, s, val, want, key, '%s[%s] is not the %s of all elements' % (op, dt, 'first position of the extreme' if op.startswith('arg') else 'extreme'))
        want = None
    if want is not None: decide(res, K, r, s, val, want, key + '/formula', '%s[%s] does not compute its definition over all elements' % (op, dt))
    decide(res, K, r, s, s.addr, C(0), key + '/addr', '%s[%s] stores outside its single element' % (op, dt), integer=True)


def firstelem(q, t, N):
    """extreme started from the first element, over all or the remaining elements"""
    i = q.a[3]
    if not (i.op == 'ld' and i.a[0] is t and cval(intnorm(i.a[1])) == 0): return False
    b = q.a[2]
    if not (b.op == 'ld' and b.a[0] is t): return False
    if same_int(q.a[1], N) and same_int(b.a[1], it(q.a[0])): return True
    return same_int(q.a[1], binop('-', N, C(1))) and same_int(b.a[1], binop('+', it(q.a[0]), C(1)))


def semantic(res, K, r, s, got, want, key, msg):
    """the values start at the type's extreme; models stay far inside"""
    w = kev.differ(K, s, got, want, models(K, r.fn))
    if isinstance(w, dict): res.bad(key, evloc(s.e), '%s; they differ e.g. for %s' % (msg, wit(w)), detail=[show(got), show(want)])
    else: raise Unk(key)


def expandmean(K, v, t):
    def f(x):
        if x.op == 'ld' and x.a[0].op == 'call' and x.a[0].a[0].endswith('op::mean') and K.root(x.a[0].a[2][0]) is t and cval(x.a[1]) == 0:
            return div(mk('SUM', 'mean', mk('numel', t), ld(t, it('mean'))), mk('numel', t))
        return None
    return rewrite(v, f)


def on_dim(res, P, r, op, dt):
    """minOnDim / maxOnDim"""
    K = Kern(P, r.fn)
    res.fn(r.fn)
    t, dim, keep = K.ps
    key = '%s/%s' % (op, dt)
    ex = op[:3].upper()
    rets = nonscalar(K)
    if len(rets) != 1: raise Unk('returns')
    outs = [K.root(x) for x in parts(rets[0])]
    if len(outs) != 2: raise Unk('results')
    nd = mk('nd', dim, t)
    Dm = mk('sz', t, nd)
    for root, what in zip(outs, ('values', 'indices')):
        shape_check(res, K, r, '%s/%s' % (key, what), root, lambda d: mk('==', d, nd), keep, t)
        ss = stores_of(K, root)
        if not ss: raise Unk('no stores')
        covered = []
        for s in ss:
            if len(s.nest) != 1: raise Unk('loop nest')
            l = s.nest[0][0]
            rr = K.shapeof(root)
            numel_ok(res, K, r, s, s.nest[0][1], rr, '%s/%s' % (key, what), op, dt)
            decide(res, K, r, s, s.addr, it(l), '%s/%s/addr' % (key, what), '%s[%s] does not store result element i at position i' % (op, dt), integer=True)
            # element addresses of the lane that belongs to result element i
            rd = binop('-', mk('dim', t), phi(keep, C(0), ONE))
            src = mk('SUM', 'd', mk('dim', rr), mul(mk('coord', it(l), rr, it('d')), mk('strd', t, phi(mk('or', keep, mk('<', it('d'), nd)), it('d'), binop('+', it('d'), ONE)))))
            j = 'j'
            if lastcond(s, nd, t): src = binop('*', it(l), Dm)      # rows are contiguous when the last dimension is reduced
            step = (lambda x: x) if lastcond(s, nd, t) else (lambda x: binop('*', x, mk('strd', t, nd)))
            want = mk(ex, j, Dm, ld(t, binop('+', src, step(it(j))))) if what == 'values' else \
                mk('ARG' + ex + 'F', j, Dm, ld(t, binop('+', src, step(it(j)))), C(0), it(j))
            v = s.val
            k2 = '%s/%s' % (key, what)
            msg = '%s[%s] %s of a result element are not the %s over its own lane' % (op, dt, what, 'extreme' if what == 'values' else 'first position of the extreme')
            if v.op == want.op and (len(v.a) > 3 and (cval(v.a[3]) == 0 if what == 'indices' else identity(v.a[3], ex))) and v.a[-1].op != 'start' and lanes_equal(v, want, what):
                res.ok('%s: %s' % (k2, show(want)[:100]))
            else: semantic(res, K, r, s, v, want, k2, msg)


def lastcond(s, nd, t):
    for c, p in s.conds:
        if p and c.op == '==' and intnorm(binop('-', binop('-', c.a[0], c.a[1]), binop('-', nd, binop('-', mk('dim', t), C(1))))) is C(0): return True
        if p and c.op == '==' and intnorm(binop('-', binop('-', c.a[1], c.a[0]), binop('-', nd, binop('-', mk('dim', t), C(1))))) is C(0): return True
    return False


def lanes_equal(v, w, what):
    try:
        l = v.a[0]
        wb = subst(w.a[2], {it(w.a[0]): it(l)})
        if not same_int(v.a[1], w.a[1]): return False
        if what == 'indices' and not same_int(v.a[4], it(l)): return False
        return v.a[2].op == 'ld' and v.a[2].a[0] is wb.a[0] and same_int(v.a[2].a[1], wb.a[1])
    except Undecided:
        return False


def numel_ok(res, K, r, s, got, root, key, op, dt):
    if got.op == 'numel' and K.shapeof(got.a[0]) is K.shapeof(root):
        res.ok('%s: every result element' % key)
        return
    decide(res, K, r, s, got, mk('numel', root), key + '/count', '%s[%s] does not visit every element' % (op, dt), integer=True)


def dst(K, t, i, axis):
    """linear index, in the reduced result, of element i of t"""
    d = it('d')
    cnt = mk('PROD', 'p', intnorm(binop('-', binop('-', mk('dim', t), ONE), d)), phi(axis(intnorm(binop('+', binop('+', d, ONE), it('p')))), ONE, mk('sz', t, intnorm(binop('+', binop('+', d, ONE), it('p'))))))
    return mk('SUM', 'd', mk('dim', t), phi(axis(d), C(0), mul(mk('coord', i, t, d), cnt)))


def mean_shape(res, K, r, mt, var, keep, key, name):
    """the mean has the shape of the variance next to it, dropped dimensions or not"""
    for kd in (False, True):
        t = mt
        while t.op in ('phi', 'deref', 'addr', 'addrof', 'mut', 'hav'):
            if t.op == 'phi':
                c, neg = t.a[0], False
                while c.op == 'not': c, neg = c.a[0], not neg
                if c is keep: t = t.a[1] if kd != neg else t.a[2]
                elif c.op == 'call' and c.a[0].endswith('::defined') or c.op == 'tcall' and c.a[0] == 'defined': t = t.a[2] if neg else t.a[1]
                else: raise Unk('mean')
            elif t.op == 'hav': raise Unk('mean')
            else: t = t.a[0]
        if t.op != 'call': raise Unk('mean')
        n = t.a[0].split('::')[-1].split('<')[0]
        if n in ('reshape', 'view') and len(t.a[2]) == 2:
            s = K.shapecall(t.a[2][1])
            if s is None: raise Unk('mean')
            ok = K.root(s) is var
        elif n in ('meanOnDims', 'meanOnDim') and len(t.a[2]) == 3:
            k = t.a[2][2]
            ok = k is keep or k.op == 'c' and bool(k.a[0]) == kd
            if not ok and k.op != 'c': raise Unk('mean')
        else: raise Unk('mean')
        res.check(ok, '%s/meanshape/%s' % (key, 'keep' if kd else 'drop'), loc_of(r.fn), '%s returns a mean that does not have the shape of the variance %s keepDims' % (name, 'with' if kd else 'without'))


def over_dims(res, P, r, op, dt):
    """sum / mean / variance over a dimension or a set of dimensions"""
    K = Kern(P, r.fn)
    res.fn(r.fn)
    t = K.ps[0]
    multi = op.endswith('Dims')
    var = op.startswith('var')
    dims = K.ps[1]
    keep = K.ps[-1]
    unb = K.ps[2] if var else None
    key = '%s/%s' % (op, dt)
    rets = nonscalar(K)
    if len(rets) != 1: raise Unk('returns')
    outs = [K.root(x) for x in parts(rets[0])]
    root = outs[0]
    if multi: axis = lambda d: mk('not', mk('==', C(0), mk('elem', mk('SCAT', 'x', mk('len', dims), mk('nd', mk('elem', dims, it('x')), t), ONE, C(0)), d)))
    else: axis = lambda d: mk('not', mk('==', C(0), mk('elem', mk('SCAT', 'x', C(1), mk('nd', mk('elem', mk('list', (dims,)), it('x')), t), ONE, C(0)), d)))
    shape_check(res, K, r, key, root, axis, keep, t)
    ss = stores_of(K, root)
    if len(ss) != 1: raise Unk('stores')
    s = ss[0]
    if relevant(s): raise Unk('conditional store')
    if len(s.nest) != 1: raise Unk('loop nest')
    if not (root.op == 'call' and root.a[0].split('::')[-1] in ('zeros', 'zerosLike')):
        if root.op == 'call' and root.a[0].split('::')[-1] in ('empty', 'emptyLike', 'ones') or root.op == 'new':
            # accumulating into a buffer that does not start at zero
            if s.val.op == '+' and any(x.op == 'ld' and x.a[0] is root for x in subterms(s.val)):
                res.bad(key + '/init', evloc(s.e), '%s[%s] accumulates into a result that does not start at zero' % (op, dt))
                return
        raise Unk('initial result')
    res.ok('%s: starts at zero' % key)
    l, n = s.nest[0]
    numel_ok(res, K, r, s, n, t, key, op, dt)
    D = dst(K, t, it(l), axis)
    decide(res, K, r, s, s.addr, D, key + '/index', '%s[%s] adds an element to the wrong result element' % (op, dt), integer=True)
    # contribution of one element: new value minus old value
    old = mk('ld', root, s.addr)
    contrib = sub(s.val, old)
    x = ld(t, it(l))
    if var:
        mroot = outs[1]
        mc = [y for y in subterms(s.val) if y.op == 'ld' and y.a[0] is not root and y.a[0] is not t]
        if not mc: raise Unk('mean')
        m = mc[0]
        if not (m.a[0].op == 'call' and m.a[0].a[0].endswith(('op::meanOnDims', 'op::meanOnDim'))): raise Unk('mean')
        ma = m.a[0].a[2]
        md = K.res(ma[1], ())
        wd = dims
        okd = md is wd or (md.op == 'list' and tuple(md.a[0]) == (wd,)) or (wd.op == 'list' and tuple(wd.a[0]) == (md,))
        if K.root(ma[0]) is not t: res.bad(key + '/mean', evloc(s.e), '%s[%s] subtracts the mean of another tensor' % (op, dt))
        elif not okd: raise Unk('mean dimensions')
        else: res.ok('%s: mean over the same dimensions' % key)
        decide(res, K, r, s, m.a[1], D, key + '/meanindex', '%s[%s] subtracts the mean of another lane' % (op, dt), integer=True)
        want = mul(sub(x, m), sub(x, m))
        mean_shape(res, K, r, parts(rets[0])[1], root, keep, key, '%s[%s]' % (op, dt))
    else: want = x
    decide(res, K, r, s, contrib, want, key + '/term', '%s[%s] does not add %s per element' % (op, dt, '(x-mean)^2' if var else 'the element'))
    f = factor(K, root, s.e.seq)
    if f is None: f = C(1.0)
    NI, NO = mk('tofloat', mk('numel', t)), mk('tofloat', mk('numel', K.shapeof(root)))
    f = renorm(rewrite(f, lambda y: mk('numel', K.shapeof(y.a[0])) if y.op == 'numel' and K.shapeof(y.a[0]) is not y.a[0] else None))
    if op.startswith('sum'): decide(res, K, r, s, f, C(1.0), key + '/scale', '%s[%s] scales the sum' % (op, dt))
    elif op.startswith('mean'): decide(res, K, r, s, f, div(NO, NI), key + '/scale', '%s[%s] is not the sum divided by the number of reduced elements' % (op, dt))
    else:
        for u in (True, False):
            def pick(y):
                if y.op != 'phi': return None
                if y.a[0] is unb: return y.a[1] if u else y.a[2]
                if y.a[0].op == 'not' and y.a[0].a[0] is unb: return y.a[2] if u else y.a[1]
                return None
            g = renorm(rewrite(f, pick))
            cnt = div(NI, NO)
            decide(res, K, r, s, g, div(C(1.0), sub(cnt, C(1.0)) if u else cnt), key + '/scale/%s' % ('unbiased' if u else 'biased'),
                   '%s[%s] (%s) is not the squared deviation divided by %s' % (op, dt, 'unbiased' if u else 'biased', 'n-1' if u else 'n'))


def forwarded(res, P, r, op, dt):
    """single-dimension variants may simply forward to the multi-dimension operator"""
    pass


def scalar_case(res, P, r, op, dt):
    """a scalar input reduces to itself (position 0, variance 0)"""
    K = Kern(P, r.fn)
    t = K.ps[0]
    sc = scalarret(K)
    if not sc: return
    key = '%s/%s/scalar' % (op, dt)
    for x in sc:
        ps = parts(x)
        for i, p in enumerate(ps):
            q = K.root(p)
            zero = (op.startswith('arg')) or (op.endswith('OnDim') and op[:3] in ('min', 'max') and i == 1) or (op.startswith('var') and i == 0)
            sv = scalarval(q)
            if zero:
                if sv is None: raise Unk('scalar result')
                res.check(cval(sv) == 0, key, loc_of(r.fn), '%s[%s] of a scalar: result %d is %s instead of 0' % (op, dt, i, show(sv)), sample='%s: 0' % key)
            else:
                if q is t or (q.op == 'call' and q.a[0].split('::')[-1] in ('clone', 'detach', 'Tensor') and K.root(q.a[1]) is t): res.ok('%s: the input' % key)
                elif sv is not None and cval(sv) is not None: res.bad(key, loc_of(r.fn), '%s[%s] of a scalar is not the scalar itself' % (op, dt))


def check_reduce(res):
    P = res.p
    O = Ops(P)
    res.rule = ('closed form of every reduction kernel (loops solved as recurrences) compared with its definition over the reduced dimensions; a difference is reported only with a finite model (shape, dimension, flags) in which the closed forms differ')
    n = 0
    for ops, f in ((('sum', 'mean', 'min', 'max', 'argmin', 'argmax', 'varMean'), reduce_all), (('minOnDim', 'maxOnDim'), on_dim),
                   (('sumOnDim', 'sumOnDims', 'meanOnDim', 'meanOnDims', 'varMeanOnDim', 'varMeanOnDims'), over_dims)):
        for op in ops:
            for dt in FLT:
                r = O.table.get((op, 'CPU', dt))
                if r is None: continue
                n += 1
                with res.instance('%s/%s' % (op, dt)): f(res, P, r, op, dt)
                with res.instance('%s/%s/scalar' % (op, dt)): scalar_case(res, P, r, op, dt)
    res.floor('kernels', n, 25)
