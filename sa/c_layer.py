"""Layers and their derivatives as compositions of operators: the operator calls of FuncX::forward and FuncX::backward, extracted with their conditions, are
replayed on tensors of small finite models (every operator by its definition) and the results compared with the layer's definition, written here as plain loops."""
from topeval import *
import itertools
from itertools import product

Q = 'tinytorch::function::'


class Case:
    def __init__(self, name, args, want, grads=None, keep=None, rand=None, loose3=False):
        """args: values of forward's parameters after ctx; want: (shape, data); grads: {index of tensor argument: function(grad of result) -> data}"""
        self.name, self.args, self.want, self.grads, self.rand, self.loose3 = name, args, want, grads or {}, rand, loose3


def rnd(seed, shape, rg=True, dtype=F32):
    r = X(shape, [(h(seed, 'd', k) - 0.5) * 4 for k in range(math.prod(shape))], dtype)
    r.rg = rg
    return r


OVER, SEEN, FLOATS = {}, set(), []        # dimensions set to a value of their own, names of dimensions, further values of real arguments


def dims2(seed, k):
    def v(n, m):
        SEEN.add(n)
        return OVER[n] if n in OVER else 1 + int(h(seed, k, n) * m) % m
    return v


def reals(lo, hi, vals):
    """values of a real argument: the given ones and both sides of every constant it may be compared with"""
    out = list(vals)
    for f in FLOATS:
        for x in (f - 0.01, f, f + 0.01, f + (hi - f) / 2):
            if lo <= x < hi and x not in out: out.append(x)
    return out


# ---- definitions

def conv_ref(x, w, b, s, p):
    (n, c, H, W), (o, _, kh, kw) = x.shape, w.shape
    oh, ow = (H - kh + 2 * p[0]) // s[0] + 1, (W - kw + 2 * p[1]) // s[1] + 1
    xs, ws = strides(x.shape), strides(w.shape)
    out, taps = [], []
    for i, k, y, z in product(range(n), range(o), range(oh), range(ow)):
        t = []
        for q, u, v in product(range(c), range(kh), range(kw)):
            yy, zz = y * s[0] + u - p[0], z * s[1] + v - p[1]
            if 0 <= yy < H and 0 <= zz < W: t.append((i * xs[0] + q * xs[1] + yy * xs[2] + zz, k * ws[0] + q * ws[1] + u * ws[2] + v))
        out.append(sum(x.data[a] * w.data[e] for a, e in t) + (b.data[k] if b.defined else 0))
        taps.append((k, t))
    return ([n, o, oh, ow], out), taps


def conv_cases():
    for k in range(84):
        r = dims2(31, k)
        kh, kw = r('kh', 3), r('kw', 2)
        s, p = (r('sh', 2), r('sw', 3)), (r('ph', 2) - 1, r('pw', 3) - 1)
        n, c, o = r('n', 2), r('c', 2), r('o', 3)
        x, w = rnd(k, [n, c, kh + r('H', 3), kw + r('W', 4)], k % 4 != 1), rnd(k + 50, [o, c, kh, kw], k % 4 != 2)
        b = rnd(k + 90, [o], k % 5 != 0) if k % 3 else Nil()
        want, taps = conv_ref(x, w, b, s, p)

        def gx(g, x=x, w=w, taps=taps):
            d = [0.0] * len(x.data)
            for v, (_, t) in zip(g, taps):
                for a, e in t: d[a] += v * w.data[e]
            return d

        def gw(g, x=x, w=w, taps=taps):
            d = [0.0] * len(w.data)
            for v, (_, t) in zip(g, taps):
                for a, e in t: d[e] += v * x.data[a]
            return d

        def gb(g, o=o, taps=taps):
            d = [0.0] * o
            for v, (q, _) in zip(g, taps): d[q] += v
            return d
        yield Case('input %s, weight %s, bias %s, stride %s, padding %s' % (x.shape, w.shape, 'yes' if b.defined else 'no', s, p), [x, w, b, s, p], want, {0: gx, 1: gw, 2: gb})


def pool_cases():
    for k in range(84):
        r = dims2(32, k)
        ker = (r('kh', 3), r('kw', 2))
        s, p = (r('sh', 2), r('sw', 3)), (r('ph', 2) - 1, r('pw', 2) - 1)
        p = (min(p[0], ker[0] // 2), min(p[1], ker[1] // 2))
        n, c, H, W = r('n', 2), r('c', 3), ker[0] + r('H', 3), ker[1] + r('W', 3)
        x = rnd(k + 7, [n, c, H, W], k % 5 != 1) if k % 4 else rnd(k + 7, [c, H, W])
        if len(x.shape) == 3: n = 1
        oh, ow = (H - ker[0] + 2 * p[0]) // s[0] + 1, (W - ker[1] + 2 * p[1]) // s[1] + 1
        out, src = [], []
        for i, q, y, z in product(range(n), range(c), range(oh), range(ow)):
            best, pos = None, None
            for u, v in product(range(ker[0]), range(ker[1])):
                yy, zz = y * s[0] + u - p[0], z * s[1] + v - p[1]
                inside = 0 <= yy < H and 0 <= zz < W
                o = ((i * c + q) * H + yy) * W + zz
                val = x.data[o] if inside else 0.0
                if best is None or val > best: best, pos = val, o if inside else None
            out.append(best)
            src.append(pos)

        def gx(g, x=x, src=src):
            d = [0.0] * len(x.data)
            for v, o in zip(g, src):
                if o is not None: d[o] += v
            return d
        yield Case('input %s, kernel %s, stride %s, padding %s' % (x.shape, ker, s, p), [x, ker, s, p], ([n, c, oh, ow], out), {0: gx}, loose3=len(x.shape) == 3)


def linear_cases():
    for k in range(60):
        r = dims2(33, k)
        lead = [[], [3], [2], [2, 3], [1, 2, 2]][k % 5]
        i, o = r('i', 4), r('o', 3)
        if not lead: lead = [r('n', 3)]
        x, w = rnd(k, lead + [i], k % 4 != 1), rnd(k + 40, [o, i], k % 4 != 3)
        b = rnd(k + 80, [o], k % 5 != 0) if k % 3 else Nil()
        n = math.prod(lead)
        out = [sum(x.data[a * i + q] * w.data[c * i + q] for q in range(i)) + (b.data[c] if b.defined else 0) for a in range(n) for c in range(o)]
        gx = lambda g, w=w, n=n, i=i, o=o: [sum(g[a * o + c] * w.data[c * i + q] for c in range(o)) for a in range(n) for q in range(i)]
        gw = lambda g, x=x, n=n, i=i, o=o: [sum(g[a * o + c] * x.data[a * i + q] for a in range(n)) for c in range(o) for q in range(i)]
        gb = lambda g, n=n, o=o: [sum(g[a * o + c] for a in range(n)) for c in range(o)]
        yield Case('input %s, weight %s, bias %s' % (x.shape, w.shape, 'yes' if b.defined else 'no'), [x, w, b], (lead + [o], out), {0: gx, 1: gw, 2: gb})


def dropout_cases():
    ps = reals(0, 1, [0.25, 0.5, 0.8, 0.0, 0.05, 0.1, 0.35, 0.65, 0.9, 0.95, 0.99])
    for k in range(2 * len(ps)):
        x = rnd(k, [2, 3 + k % 3], k % 4 != 3)
        p, training = ps[k % len(ps)], k < len(ps)
        m = [float(h(1, 'bern', j) < 0.6) for j in range(len(x.data))]
        f = lambda v, m=m, p=p, t=training: [a * b / (1 - p) for a, b in zip(v, m)] if t else list(v)
        yield Case('p = %s, %s' % (p, 'training' if training else 'evaluation'), [x, p, training], (x.shape, f(x.data)), {0: f}, rand=[1 - p] if training else [])


def embedding_cases():
    for k in range(8):
        s = [[3], [2, 2], [1], [2, 1, 2], [4], [0], [1, 1], [3, 1]][k]
        w = rnd(k, [5, 3], k % 2 == 0)
        ids = X(s, [int(h(k, 'id', j) * 5) for j in range(math.prod(s))], I64)
        yield Case('ids %s, weight %s' % (s, w.shape), [ids, w], (s + [3], [w.data[i * 3 + j] for i in ids.data for j in range(3)]))


def attention_cases():
    for k in range(96):
        r = dims2(35, k)
        lead = [[], [2], [2, 2], [1, 2]][k % 4]
        L, S, D, V = r('L', 3), 1 + r('S', 3), 1 + r('D', 3), r('V', 3)
        q, kk, v = rnd(k, lead + [L, D], False), rnd(k + 30, lead + [S, D], False), rnd(k + 60, lead + [S, V], False)
        causal = k % 3 == 0
        mask, madd = Nil(), None
        if not causal and k % 3 == 1:
            ms = ([1] * (len(lead) - 1) if k % 2 and lead else lead) + [L, S] if lead and k % 4 != 1 else [L, S]
            if ms[:-2] == [1] * len(ms[:-2]) or ms[:-2] == lead:
                mask = X(ms, [1 if j % S == 0 or h(k, 'm', j) < 0.5 else 0 for j in range(math.prod(ms))], BOOL)
        elif not causal:
            mask = rnd(k + 99, [L, S], False)
        scale = 0.3 if k % 2 else None
        dps = reals(0, 1, [0.4, 0.05, 0.9])
        dp = dps[k // 5 % len(dps)] if k % 5 == 4 else 0.0
        n = math.prod(lead)
        sc = scale if scale is not None else 1 / math.sqrt(D)
        att = []
        for b in range(n):
            for i in range(L):
                row = []
                for j in range(S):
                    x = sc * sum(q.data[(b * L + i) * D + d] * kk.data[(b * S + j) * D + d] for d in range(D))
                    if causal and j > i: x = -math.inf
                    if mask.defined:
                        mb = math.prod(mask.shape[:-2]) if mask.shape[:-2] else 1
                        mv = mask.data[((b if mb == n else 0) * L + i) * S + j]
                        if mask.dtype == BOOL: x = x if mv else -math.inf
                        else: x += mv
                    row.append(x)
                att += softmax(row)
        if dp: att = [a * float(h(1, 'drop', j) < 0.6) / (1 - dp) for j, a in enumerate(att)]
        out = [sum(att[(b * L + i) * S + j] * v.data[(b * S + j) * V + e] for j in range(S)) for b in range(n) for i in range(L) for e in range(V)]
        yield Case('query %s, key %s, value %s, causal %s, mask %s, dropout %s, scale %s' % (q.shape, kk.shape, v.shape, causal, ('bool ' if mask.dtype == BOOL else 'additive ') + str(mask.shape) if mask.defined else 'none', dp, scale),
                   [q, kk, v, causal, mask, dp, scale], (lead + [L, V], out), rand=[1 - dp] if dp else [])


def norm_cases(center):
    for k in range(24):
        r = dims2(36, k)
        ns = [r('n', 5)] if k % 3 else [r('m', 3), r('n', 3)]
        lead = [[2], [1, 3], [], [3, 2]][k % 4]
        x = rnd(k, lead + ns, False)
        w = rnd(k + 20, ns, False) if k % 4 != 2 else Nil()
        b = rnd(k + 40, ns, False) if k % 5 != 1 else Nil()
        eps = reals(1e-12, 10, [1e-5, 0.3, 1e-2, 2.0])
        e = eps[k % len(eps)]
        y = lanenorm(x, ns, w, b if center else None, e, center)
        yield Case('input %s, normalised %s, weight %s%s, eps %g' % (x.shape, ns, 'yes' if w.defined else 'no', ', bias %s' % ('yes' if b.defined else 'no') if center else '', e), [x, ns, w] + ([b] if center else []) + [e], (y.shape, y.data))


def rope_cases():
    for k in range(6):
        x, t = rnd(k, [1, 2, 3, 4], False), rnd(k + 30, [9, 4], False)
        o = [0, 1, 2, 5, 3, 6][k]
        y = OPS['ropeApply'](None, x, t, o)
        yield Case('offset %d' % o, [x, t, o], (y.shape, y.data))


LAYERS = {'FuncLayerNorm': lambda: norm_cases(True), 'FuncRMSNorm': lambda: norm_cases(False), 'FuncRoPE': rope_cases, 'FuncConv2D': conv_cases, 'FuncMaxPool': pool_cases, 'FuncLinear': linear_cases, 'FuncDropout': dropout_cases, 'FuncEmbedding': embedding_cases, 'FuncSDPAttention': attention_cases}
NAMES = {'FuncConv2D': 'conv2d', 'FuncMaxPool': 'maxPool2d', 'FuncLinear': 'linear', 'FuncDropout': 'dropout', 'FuncEmbedding': 'embedding', 'FuncSDPAttention': 'sdpAttention', 'FuncLayerNorm': 'layerNorm', 'FuncRMSNorm': 'rmsNorm', 'FuncRoPE': 'ropeApply'}


def fmt(v): return '[' + ', '.join('%.4g' % x for x in v[:8]) + (', ...' if len(v) > 8 else '') + ']'


def tensors(a): return [x for x in a if isinstance(x, (X, Nil))]


def hasloop(I): return any(e.kind == 'loop' for e in I.evs) or bool(I.loopinfo)


def forward(res, P, cls, I, rec, c, hold):
    """None when the case is settled badly, else the context"""
    ctx = Ctx(tensors(c.args))
    before = [list(x.data) for x in ctx.inputs]
    shapes = [list(x.shape) for x in ctx.inputs]
    for withctx in (False, True):
        E = Env(I, [ctx if withctx else None] + c.args, 1)
        try:
            r = E.run(rec)
        except Trap as e:
            res.bad('%s/forward' % cls, loc_of(rec), '%s on %s: an assertion fails (%s)' % (NAMES[cls], c.name, e))
            return None
        except Undef as e:
            res.bad('%s/forward' % cls, loc_of(rec), '%s on %s: %s' % (NAMES[cls], c.name, e))
            return None
        if not isinstance(r, X): raise Stuck('result')
        shape, data = c.want
        sh = r.shape == list(shape) or c.loose3 and r.shape[-3:] == list(shape)[-3:]
        if not sh or not close(r.data, data, 1e-5):
            res.bad('%s/forward' % cls, loc_of(rec), '%s on %s: the result has shape %s and values %s, its definition gives shape %s and values %s' % (NAMES[cls], c.name, r.shape, fmt(r.data), list(shape), fmt(data)))
            return None
        if c.rand is not None and (len(E.rand) != len(c.rand) or any(abs(a[1] - b) > 1e-6 for a, b in zip(E.rand, c.rand))):
            res.bad('%s/forward' % cls, loc_of(rec), '%s on %s: elements are kept with probability %s instead of %s' % (NAMES[cls], c.name, fmt([a[1] for a in E.rand]), fmt(c.rand)))
            return None
        if any(x.data != d or list(x.shape) != s for x, d, s in zip(ctx.inputs, before, shapes)):
            res.bad('%s/forward/args' % cls, loc_of(rec), '%s on %s changes one of its arguments' % (NAMES[cls], c.name))
            return None
    hold.append(r)
    return ctx


def backward(res, P, cls, I, rec, c, ctx, out):
    g = rnd(77, out.shape, False)
    E = Env(I, [ctx, g], 1)
    try:
        E.run(rec)
    except Trap as e:
        return res.bad('%s/backward' % cls, loc_of(rec), 'backward of %s on %s: an assertion fails (%s)' % (NAMES[cls], c.name, e))
    except Undef as e:
        return res.bad('%s/backward' % cls, loc_of(rec), 'backward of %s on %s: %s' % (NAMES[cls], c.name, e))
    for k, x in enumerate(ctx.inputs):
        if not x.defined: continue
        if not x.rg:
            if x.grad is not None: return res.bad('%s/backward/%d' % (cls, k), loc_of(rec), 'backward of %s on %s: tensor argument %d is not tracked but receives a gradient' % (NAMES[cls], c.name, k))
            continue
        if k not in c.grads: continue
        want = c.grads[k](g.data)
        if x.grad is None: return res.bad('%s/backward/%d' % (cls, k), loc_of(rec), 'backward of %s on %s: tensor argument %d receives no gradient' % (NAMES[cls], c.name, k))
        if x.grad.shape != x.shape or not close(x.grad.data, want, 1e-5):
            return res.bad('%s/backward/%d' % (cls, k), loc_of(rec), 'backward of %s on %s: the gradient of tensor argument %d is %s %s, the derivative of the definition is %s' % (NAMES[cls], c.name, k, x.grad.shape, fmt(x.grad.data), fmt(want)))
    res.ok('backward of %s on %s' % (NAMES[cls], c.name))


def prep(P, rec):
    I = Interp(P, policy())
    I.run(rec)
    if I.loopinfo: raise Stuck('loops in %s' % rec['fn'])
    return I


def wrapped(res, P, cls, gen, I, rec):
    """the function:: entry point gives what forward gives for its arguments"""
    name = NAMES[cls]
    fs = [r for r in P.by_name.get(Q + name, []) if len(r['ps']) == len(rec['ps']) - 1]
    if len(fs) != 1: return
    base = policy()
    W = Interp(P, Policy(opaque=lambda r: base._o(r) or '::apply' in r['fn'] and 'Function<' in r['fn']))
    W.run(fs[0])
    res.fn(fs[0])
    if W.loopinfo: raise Stuck('loops in %s' % fs[0]['fn'])

    def hook(n, a):
        if cls + '>' not in n: raise Stuck(n)
        E = Env(I, [None] + list(a), 1)
        return E.run(rec)
    for c in allcases(gen, W):
        E = Env(W, c.args, 1)
        E.hook = hook
        try: r = E.run(fs[0])
        except (Trap, Undef) as e: return res.bad('%s/entry' % cls, loc_of(fs[0]), 'function::%s on %s: %s' % (name, c.name, e))
        if not isinstance(r, X): raise Stuck('result')
        shape, data = c.want
        sh = r.shape == list(shape) or c.loose3 and r.shape[-3:] == list(shape)[-3:]
        if not res.check(sh and close(r.data, data, 1e-5), '%s/entry' % cls, loc_of(fs[0]), 'function::%s on %s: the result has shape %s and values %s, its definition gives shape %s and values %s' % (name, c.name, r.shape, fmt(r.data), list(shape), fmt(data)),
                         sample='function::%s on %s' % (name, c.name)): return


def allcases(gen, *Is):
    """the cases, and those with a dimension or real argument around a constant the conditions compare with"""
    ints, fl = set(), set()
    for I in Is:
        a, b = thresholds(I)
        ints |= set(a)
        fl |= set(b)
    FLOATS[:] = sorted(fl)
    OVER.clear()
    SEEN.clear()
    try:
        yield from gen()
        for c in sorted(ints)[:4]:
            for n in sorted(SEEN):
                for v in sorted({c, c + 1}):
                    OVER.clear()
                    OVER[n] = v
                    if n.startswith('p'): continue          # a padding beyond the kernel
                    yield from itertools.islice(gen(), 4)
    finally:
        OVER.clear()
        FLOATS[:] = []


def check_layer(res):
    P = res.p
    Ops(P)
    res.rule = 'the operator calls of a layer, followed with their conditions, give the layer\'s definition and its derivative'
    n = 0
    for cls, gen in LAYERS.items():
        f = P.by_name.get(Q + cls + '::forward')
        if not f: continue
        with res.instance(cls):
            rec = f[0]
            I = prep(P, rec)
            res.fn(rec)
            B = None
            if any(c.grads for c in gen()):
                b = P.by_name[Q + cls + '::backward'][0]
                with res.instance(cls + ' backward'):
                    B = (prep(P, b), b)
                    res.fn(b)
            fine = False
            for c in allcases(gen, I, *([B[0]] if B else [])):
                hold = []
                ctx = forward(res, P, cls, I, rec, c, hold)
                if ctx is None: break
                res.ok('%s on %s' % (NAMES[cls], c.name))
                n += 1
                if B is None or not c.grads: continue
                v = len(res.violations)
                with res.instance('%s backward on %s' % (cls, c.name)):
                    backward(res, P, cls, B[0], B[1], c, ctx, hold[0])
                if len(res.violations) > v: break
            else: fine = True
            if fine:
                with res.instance(cls + ' entry'): wrapped(res, P, cls, gen, I, rec)
    res.floor('models', n, 20)
