"""Losses, gated activation and rotary embedding: the losses as compositions of operators (replayed on finite models against their definitions, like the layers),
the fused kernels by their closed-form element maps."""
import random
import topeval
from c_layer import *
from kcontent import TModel
from kcontent import *
from c_xform import ESZ, compare, rshape
import kcontent

NONE, MEAN, SUM = 0, 1, 2
RED = {NONE: 'none', MEAN: 'mean', SUM: 'sum'}
SPECS = {}


def spec(op):
    def f(c):
        SPECS[op] = c
        return c
    return f


@spec('siluMul')
class SiluMul:
    def gen(rnd, K):
        s = rshape(rnd, 1, 4)
        return {K.ps[0]: s[:-1] + [2 * s[-1]]}, {}, {}

    def ref(m, K):
        s = m.shape(K.ps[0])
        d = s[-1] // 2
        out = []
        for i in range(math.prod(s[:-1])):
            for j in range(d):
                g, u = m.load(K.ps[0], i * 2 * d + j), m.load(K.ps[0], i * 2 * d + d + j)
                out.append(g / (1 + math.exp(-g)) * u)
        return list(s[:-1]) + [d], out


@spec('ropeApply')
class RopeApply:
    def gen(rnd, K):
        t, r, o = K.ps
        b, n, l, d = [rnd.dim(1, 3) for _ in range(4)]
        off = rnd.randint(0, 3)
        return {t: [b, n, l, 2 * d], r: [off + l + rnd.randint(0, 2), 2 * d, 2]}, {o: off}, {}

    def ref(m, K):
        t, r, o = K.ps
        b, n, l, d = m.shape(t)
        hd = d // 2
        out = [None] * math.prod(m.shape(t))
        for q in range(b * n):
            for p in range(l):
                base = (q * l + p) * d
                for i in range(hd):
                    c, s = [m.load(r, ((p + m.params[o]) * d + i) * 2 + k) for k in (0, 1)]
                    x, y = m.load(t, base + i), m.load(t, base + hd + i)
                    out[base + i], out[base + hd + i] = x * c - y * s, y * c + x * s
        return list(m.shape(t)), out


@spec('ropeInit')
class RopeInit:
    models = 320

    def gen(rnd, K):
        hd, n, th, sc, op = K.ps
        ps = {hd: 2 * rnd.dim(1, 4), n: rnd.dim(1, 4), th: float(rnd.choice([2, 10, 10000])), sc: False, mk('fld', op, 'requiresGrad_'): False}
        if rnd.random() < .85:
            d = mk('deref', sc)
            f = dict(factor=rnd.choice([2.0, 8.0]), highFreqFactor=rnd.choice([4.0, 3.0, 2.0]), lowFreqFactor=rnd.choice([1.0, 0.5]), originalContextLength=rnd.choice([8, 8, 40, 300]))
            for k, v in f.items():
                for b in (d, sc): ps[mk('fld', b, k)] = v
            ps[sc] = True
        return {}, ps, {}

    def ref(m, K):
        hd, n, th, sc, op = K.ps
        D, N, base = m.params[hd], m.params[n], m.params[th]
        inv = [1 / base ** (2 * i / D) for i in range(D // 2)]
        if m.params[sc]:
            f, hi, lo, L = [m.params[mk('fld', sc, k)] for k in ('factor', 'highFreqFactor', 'lowFreqFactor', 'originalContextLength')]
            o = []
            for x in inv:
                wl = 2 * math.pi / x
                if wl > L / lo: x = x / f
                elif not wl < L / hi:
                    s = (L / wl - lo) / (hi - lo)
                    x = (1 - s) * x / f + s * x
                o.append(x)
            inv = o
        out = []
        for p in range(N):
            row = [[math.cos(p * x), math.sin(p * x)] for x in inv]
            out += [v for r in row + row for v in r]
        return [N, D, 2], out

    def pre(m, K):
        rets = returned(K, m)
        m.fixed = {}
        for r in {s.root for s in K.stores}:
            if K.root(rets) is not r: m.fixed[r] = tensor_value(K, r, m)[1]


# ---- losses

def red(v, r):
    if r == NONE: return v
    return [sum(v) / (len(v) if r == MEAN else 1)]


def bcast(x, s):
    """positions of x's elements seen through the broadcast shape s"""
    xs = [1] * (len(s) - len(x.shape)) + list(x.shape)
    return [sum(0 if n == 1 else c * st for c, n, st in zip(coords(i, s), xs, strides(xs))) for i in range(math.prod(s))]


def mse_cases():
    k = 0
    for r in (NONE, MEAN, SUM):
        for sx, st in (([3], [3]), ([2, 3], [2, 3]), ([], []), ([2, 1, 4], [2, 1, 4]), ([2], [3, 2]), ([3, 1], [3, 4]), ([2, 3], [3]), ([2, 1, 3], [4, 1]), ([], [2, 2]), ([5], [])):
            k += 1
            x, t = rnd(k, sx, True), rnd(k + 40, st, False)
            n = max(len(sx), len(st))
            s = [max(a, b) for a, b in zip([1] * (n - len(sx)) + sx, [1] * (n - len(st)) + st)]
            ix, it_ = bcast(x, s), bcast(t, s)
            out = red([(x.data[i] - t.data[j]) ** 2 for i, j in zip(ix, it_)], r)

            def gx(g, x=x, t=t, r=r, ix=ix, it_=it_):
                d = [0.0] * len(x.data)
                for q, (i, j) in enumerate(zip(ix, it_)): d[i] += 2 * (x.data[i] - t.data[j]) * (g[q] if r == NONE else g[0]) / (len(ix) if r == MEAN else 1)
                return d
            yield Case('input %s and target %s, reduction %s' % (sx, st, RED[r]), [x, t, r], (s if r == NONE else [], out), {0: gx})


def nll_cases():
    for k in range(9):
        r = (NONE, MEAN, SUM)[k % 3]
        n, c = 1 + (k * 7) % 4, 2 + k % 3
        x = rnd(k, [n, c], True)
        t = X([n], [int(h(k, 't', i) * c) % c for i in range(n)], I64)
        out = red([-x.data[i * c + j] for i, j in enumerate(t.data)], r)

        def gx(g, x=x, t=t, r=r, n=n, c=c):
            d = [0.0] * (n * c)
            for i, j in enumerate(t.data): d[i * c + j] = -(g[i] if r == NONE else g[0]) / (n if r == MEAN else 1)
            return d
        yield Case('input %s, target %s, reduction %s' % (x.shape, t.data, RED[r]), [x, t, r], ([n] if r == NONE else [], out), {0: gx})


LOSSES = {'FuncMSELoss': ('mseLoss', mse_cases), 'FuncNLLLoss': ('nllLoss', nll_cases)}


class LEnv(Env):
    """with calls to the loss kernels followed"""
    def op(self, name, a):
        k = self.sub.get(name)
        if k is None: return Env.op(self, name, a)
        for x in a:
            if isinstance(x, Nil): raise Undef('undefined tensor given to %s' % name)
        E = LEnv(k[0], a, self.seed)
        E.sub = {}
        return E.run(k[1])


def kpolicy(rec):
    pre = ('tinytorch::Tensor::', 'tinytorch::options', 'tinytorch::Scalar::', 'tinytorch::op::', 'tinytorch::TensorIterator')
    return Policy(opaque=lambda r: r is not rec and (r['fn'].startswith(pre) or bool(r.get('_disp'))))


def check_loss(res, P, O):
    n = 0
    for cls, (op, gen) in LOSSES.items():
        for dt in ('Float32',):
            f = P.by_name.get(Q + cls + '::forward')
            if not f or (op, 'CPU', dt) not in O.table: continue
            with res.instance('%s/%s' % (cls, dt)):
                rec, bk = f[0], P.by_name[Q + cls + '::backward'][0]
                I, B = prep(P, rec), prep(P, bk)
                sub = {}
                for o in (op, op + 'Backward'):
                    k = O.table[(o, 'CPU', dt)].fn
                    J = Interp(P, kpolicy(k))
                    J.run(k)
                    if J.loopinfo: raise Stuck('loops in %s' % k['fn'])
                    sub[o] = (J, k)
                    res.fn(k)
                res.fn(rec)
                res.fn(bk)
                for c in gen():
                    r = one(res, '%s/%s' % (op, dt), op, sub, (I, rec), (B, bk), c)
                    n += 1
                    if not r: break
    return n


def one(res, key, op, sub, fwd, bwd, c):
    ctx = Ctx([c.args[0], c.args[1]])
    before = [list(x.data) for x in ctx.inputs]
    try:
        for cx in (None, ctx):
            E = LEnv(fwd[0], [cx] + c.args, 1)
            E.sub = sub
            r = E.run(fwd[1])
    except Trap as e:
        return res.check(False, key + '/forward', loc_of(sub[op][1]), '%s on %s: an assertion fails (%s)' % (op, c.name, e))
    except Undef as e:
        return res.check(False, key + '/forward', loc_of(sub[op][1]), '%s on %s: %s' % (op, c.name, e))
    if not isinstance(r, X): raise Stuck('result')
    if list(r.shape) != list(c.want[0]) or not topeval.close(r.data, c.want[1], 1e-5):
        return res.check(False, key + '/forward', loc_of(sub[op][1]), '%s on %s: the result is %s %s, its definition gives %s %s' % (op, c.name, r.shape, fmt(r.data), c.want[0], fmt(c.want[1])))
    if any(x.data != d for x, d in zip(ctx.inputs, before)):
        return res.check(False, key + '/forward/args', loc_of(sub[op][1]), '%s on %s changes one of its arguments' % (op, c.name))
    res.ok('%s on %s' % (key, c.name))
    g = rnd(77, r.shape, False)
    try:
        E = LEnv(bwd[0], [ctx, g], 1)
        E.sub = sub
        E.run(bwd[1])
    except Trap as e:
        return res.check(False, key + '/backward', loc_of(sub[op + 'Backward'][1]), 'backward of %s on %s: an assertion fails (%s)' % (op, c.name, e))
    except Undef as e:
        return res.check(False, key + '/backward', loc_of(sub[op + 'Backward'][1]), 'backward of %s on %s: %s' % (op, c.name, e))
    x = ctx.inputs[0]
    want = c.grads[0](g.data)
    if x.grad is None or list(x.grad.shape) != list(x.shape) or not topeval.close(x.grad.data, want, 1e-5):
        return res.check(False, key + '/backward', loc_of(sub[op + 'Backward'][1]), 'backward of %s on %s: the gradient is %s, the derivative of the definition is %s' % (op, c.name, fmt(x.grad.data) if x.grad else 'missing', fmt(want)))
    if ctx.inputs[1].grad is not None:
        return res.check(False, key + '/backward', loc_of(bwd[1]), 'backward of %s on %s: the target receives a gradient' % (op, c.name))
    res.ok('backward of %s on %s' % (key, c.name))
    return True


def check_kernels(res, O, specs, n=120):
    k = 0
    for op, cls in specs.items():
        for (o, dev, dt), r in sorted(O.table.items(), key=lambda kv: str(kv[0])):
            if o != op or dev != 'CPU': continue
            k += 1
            with res.instance('%s/%s' % (op, dt)):
                K = Kern(res.p, r.fn, esz=ESZ.get(dt), live='inter' if hasattr(cls, 'pre') else True)
                res.fn(r.fn)
                compare(res, K, r, op, dt, cls, getattr(cls, 'models', n), 1)
    return k


def check_fused(res):
    P = res.p
    O = Ops(P)
    res.rule = 'losses, gated activation and rotary embedding give their definitions (and, for losses, the derivative)'
    n = check_loss(res, P, O)
    k = check_kernels(res, O, SPECS)
    res.floor('loss models', n, 12)
    res.floor('kernels', k, 4)
