"""Tensor-level evaluation of a composition of operators: the ordered operator calls that abstract interpretation extracts from a function are replayed
on small tensors of a finite model, each operator by its definition (the definitions are C03 and C10-C13's obligations). The program itself is not run."""
import math
from model import *
from kev import h
import alg

OPN = 'tinytorch::op::'
TN = 'tinytorch::Tensor::'
F32, F16, BF16, I32, I64, BOOL = 0, 1, 2, 3, 4, 5


class Stuck(Exception): pass        # not followed: the obligation stays undecided


class Trap(Exception): pass         # an assertion of the code fails on this model


class Undef(Exception): pass        # a definition is applied outside its domain (shape mismatch, index out of range)


class X:
    """tensor value"""
    n = 0

    def __init__(self, shape, data=None, dtype=F32, rg=False):
        self.shape, self.dtype, self.rg, self.grad = [int(s) for s in shape], dtype, rg, None
        k = math.prod(self.shape)
        self.data = [0.0] * k if data is None else list(data)
        if len(self.data) != k: raise Undef('%d elements for shape %s' % (len(self.data), self.shape))
        self.defined = True
        X.n += 1
        self.id = X.n

    def like(self, shape, data, dtype=None): return X(shape, data, self.dtype if dtype is None else dtype)
    def __repr__(self): return 'X%s%s' % (self.shape, self.data if len(self.data) < 13 else '...')


class Nil:
    defined, rg, shape, data, dtype = False, False, [], [], F32


class Opts(dict): pass


class Iter:
    def __init__(self, ins):
        self.ins = ins
        for x in ins: need(isinstance(x, X), 'iteration over an undefined tensor')


def strides(s):
    r, k = [], 1
    for x in reversed(s):
        r.append(k)
        k *= x
    return r[::-1]


def need(c, m='domain'):
    if not c: raise Undef(m)


def idxs(shape):
    if not shape:
        yield ()
        return
    def go(d):
        if d == len(shape): yield ()
        else:
            for i in range(shape[d]):
                for r in tails[d + 1] if False else go(d + 1): yield (i,) + r
    yield from go(0)


def at(x, i):
    k = 0
    for a, s in zip(i, x.shape):
        need(0 <= a < s, 'index out of range')
        k = k * s + a
    return x.data[k]


def ax(d, n):
    if d < 0: d += n
    need(0 <= d < max(n, 1), 'dimension')
    return d


def infer(n, s):
    s = [int(x) for x in s]
    if s.count(-1):
        need(s.count(-1) == 1)
        p = math.prod(x for x in s if x != -1)
        need(p and n % p == 0, 'reshape')
        s[s.index(-1)] = n // p
    need(math.prod(s) == n, 'reshape to %s' % s)
    return s


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = [1] * (n - len(a)) + list(a), [1] * (n - len(b)) + list(b)
    for x, y in zip(a, b): need(x == y or x == 1 or y == 1, 'broadcast')
    return [y if x == 1 else x for x, y in zip(a, b)]


def bget(x, i):
    i = i[len(i) - len(x.shape):]
    return at(x, tuple(0 if s == 1 else k for k, s in zip(i, x.shape)))


def ew(f, a, b, dtype=None):
    s = bshape(a.shape, b.shape)
    return X(s, [f(bget(a, i), bget(b, i)) for i in idxs(s)], a.dtype if dtype is None else dtype)


def un(f, a, dtype=None): return a.like(a.shape, [f(x) for x in a.data], dtype)


def reshape(x, s): return x.like(infer(len(x.data), s), x.data)


def permute(x, p):
    n = len(x.shape)
    p = [ax(int(d), n) for d in p] if p else list(range(n))[::-1]
    need(sorted(p) == list(range(n)), 'permutation')
    s = [x.shape[d] for d in p]
    r = []
    for i in idxs(s):
        j = [0] * n
        for k, d in enumerate(p): j[d] = i[k]
        r.append(at(x, j))
    return x.like(s, r)


def transpose(x, a, b):
    n = len(x.shape)
    p = list(range(n))
    a, b = ax(a, n), ax(b, n)
    p[a], p[b] = p[b], p[a]
    return permute(x, p)


def matmul(a, b, ta=False, tb=False):
    la, lb = len(a.shape), len(b.shape)
    need(la and lb)
    if la == 1: a = reshape(a, [1] + a.shape) if not ta else reshape(a, a.shape + [1])
    if lb == 1: b = reshape(b, b.shape + [1]) if not tb else reshape(b, [1] + b.shape)
    if ta: a = transpose(a, -1, -2)
    if tb: b = transpose(b, -1, -2)
    need(a.shape[-1] == b.shape[-2], 'matmul %s %s' % (a.shape, b.shape))
    bs = bshape(a.shape[:-2], b.shape[:-2])
    m, n, k = a.shape[-2], b.shape[-1], a.shape[-1]
    A, Bx = x_(a), x_(b)
    out = []
    for i in idxs(bs):
        oa, ob = boff(a, i), boff(b, i)
        for r in range(m):
            for c in range(n):
                out.append(sum(a.data[oa + r * k + q] * b.data[ob + q * n + c] for q in range(k)))
    s = bs + ([] if la == 1 else [m]) + ([] if lb == 1 else [n])
    return a.like(s, out)


def x_(a): return a


def boff(x, i):
    """offset of the matrix of batch position i"""
    s = x.shape[:-2]
    i = i[len(i) - len(s):] if s else ()
    k = 0
    for a, d in zip(i, s): k = k * d + (0 if d == 1 else a)
    return k * x.shape[-1] * x.shape[-2]


def windows(shape, kernel, stride, padding):
    """rows (batch, outH, outW), columns (channel, kernelH, kernelW) -> input offset or None"""
    b, c, hh, ww = ([1] + list(shape)) if len(shape) == 3 else shape
    oh, ow = (hh - kernel[0] + 2 * padding[0]) // stride[0] + 1, (ww - kernel[1] + 2 * padding[1]) // stride[1] + 1
    need(oh > 0 and ow > 0)
    rows = []
    for n in range(b):
        for y in range(oh):
            for x in range(ow):
                row = []
                for k in range(c):
                    for p in range(kernel[0]):
                        for q in range(kernel[1]):
                            yy, xx = y * stride[0] + p - padding[0], x * stride[1] + q - padding[1]
                            row.append(((n * c + k) * hh + yy) * ww + xx if 0 <= yy < hh and 0 <= xx < ww else None)
                rows.append(row)
    return rows


def im2col(x, k, s, p):
    w = windows(x.shape, k, s, p)
    return x.like([len(w), len(w[0])], [0.0 if o is None else x.data[o] for r in w for o in r])


def col2im(x, shape, k, s, p):
    w = windows(shape, k, s, p)
    need(len(x.data) == len(w) * len(w[0]), 'col2im')
    d = [0.0] * math.prod(shape)
    for v, o in zip(x.data, [o for r in w for o in r]):
        if o is not None: d[o] += v
    return x.like(shape, d)


def lanes(x, d):
    d = ax(d, len(x.shape))
    st = math.prod(x.shape[d + 1:])
    n = x.shape[d]
    for o in range(math.prod(x.shape[:d])):
        for i in range(st): yield [o * n * st + j * st + i for j in range(n)]


def redshape(x, d, keep):
    d = ax(d, len(x.shape))
    return x.shape[:d] + ([1] if keep else []) + x.shape[d + 1:]


def extreme(x, d, keep, f):
    v, p = [], []
    for l in lanes(x, d):
        j = f(range(len(l)), key=lambda j: x.data[l[j]])
        v.append(x.data[l[j]])
        p.append(j)
    s = redshape(x, d, keep)
    return {'first': x.like(s, v), 'second': X(s, p, I64)}


def overlane(x, d, f):
    out = [0.0] * len(x.data)
    for l in lanes(x, d):
        for j, v in zip(l, f([x.data[k] for k in l])): out[j] = v
    return x.like(x.shape, out)


def softmax(v):
    m = max(v)
    if m == -math.inf: return [math.nan] * len(v)
    e = [math.exp(x - m) for x in v]
    return [x / sum(e) for x in e]


def logsoftmax(v):
    m = max(v)
    s = math.log(sum(math.exp(x - m) for x in v))
    return [x - m - s for x in v]


def index_advance(x, ids):
    ids = [i for i in ids]
    need(1 <= len(ids) <= len(x.shape))
    s = ids[0].shape
    for i in ids[1:]: need(len(i.data) == len(ids[0].data))
    inner = math.prod(x.shape[len(ids):])
    out = []
    for k in range(len(ids[0].data)):
        o = 0
        for i, n in zip(ids, x.shape):
            a = int(i.data[k])
            if a < 0: a += n
            need(0 <= a < n, 'index')
            o = o * n + a
        out.append(o * inner)
    return s, inner, out


def tril(x, k, keep):
    m, n = x.shape[-2], x.shape[-1]
    return x.like(x.shape, [v if keep((i // n) % m, i % n, k) else 0 for i, v in enumerate(x.data)])


def sumdims(x, dims, keep):
    n = len(x.shape)
    ds = {ax(int(d), n) for d in dims} if dims else set(range(n))
    full = [1 if d in ds else s for d, s in enumerate(x.shape)]
    acc = {}
    for i, v in zip(idxs(x.shape), x.data):
        k = tuple(0 if d in ds else a for d, a in enumerate(i))
        acc[k] = acc.get(k, 0) + v
    data = [acc.get(i, 0) for i in idxs(full)]
    return x.like(full if keep else [s for d, s in enumerate(x.shape) if d not in ds], data)


def sumto(g, s):
    """gradient summed over the dimensions along which a tensor of shape s was broadcast"""
    d = {}
    for i, v in zip(idxs(g.shape), g.data):
        j = i[len(i) - len(s):] if len(i) >= len(s) else None
        need(j is not None, 'gradient of lower rank')
        k = tuple(0 if n == 1 else a for a, n in zip(j, s))
        d[k] = d.get(k, 0) + v
    return X(s, [d.get(i, 0) for i in idxs(s)])


def mean_(x, dims, keep):
    r = sumdims(x, dims, keep)
    k = len(x.data) // len(r.data) if r.data else 1
    return r.like(r.shape, [v / k if k else math.nan for v in r.data])


def flatten(x, a, b):
    n = len(x.shape)
    if not n: return reshape(x, [1])
    a, b = ax(int(a), n), ax(int(b), n)
    need(a <= b, 'flatten')
    return reshape(x, x.shape[:a] + [math.prod(x.shape[a:b + 1])] + x.shape[b + 1:])


def lanenorm(x, s, w, b, eps, center):
    n = math.prod(s)
    need(x.shape[len(x.shape) - len(s):] == list(s), 'normalized shape')
    out = []
    for o in range(0, len(x.data), max(n, 1)):
        l = x.data[o:o + n]
        m = sum(l) / n if center else 0.0
        k = 1 / math.sqrt(sum((v - m) ** 2 for v in l) / n + eps)
        out += [(v - m) * k * (w.data[j] if w is not None and w.defined else 1) + (b.data[j] if b is not None and b.defined else 0) for j, v in enumerate(l)]
    return x.like(x.shape, out)


MAYBE = {'layerNorm', 'rmsNorm'}         # take undefined tensors


def b01(x): return 1 if x else 0


def truediv(a, b): return a / b if b else math.nan


OPS = {
    'add': lambda E, a, b, k=1: ew(lambda x, y: x + k * y, a, b), 'sub': lambda E, a, b, k=1: ew(lambda x, y: x - k * y, a, b),
    'mul': lambda E, a, b: ew(lambda x, y: x * y, a, b), 'div': lambda E, a, b: ew(truediv, a, b),
    'matmul': lambda E, a, b, ta=0, tb=0: matmul(a, b, ta, tb), 'reshape': lambda E, x, s: reshape(x, s), 'view': lambda E, x, s: reshape(x, s),
    'permute': lambda E, x, p=(): permute(x, p), 'permuteAll': lambda E, x: permute(x, ()), 'transpose': lambda E, x, a, b: transpose(x, a, b), 'transpose2d': lambda E, x: transpose(x, 0, 1),
    'im2col': lambda E, x, k, s, p: im2col(x, k, s, p), 'col2im': lambda E, x, sh, k, s, p: col2im(x, sh, k, s, p),
    'maxOnDim': lambda E, x, d, keep=0: extreme(x, d, keep, max), 'minOnDim': lambda E, x, d, keep=0: extreme(x, d, keep, min),
    'mean': lambda E, x: X([], [sum(x.data) / len(x.data)], x.dtype),
    'meanOnDim': lambda E, x, d, keep=0: mean_(x, [d], keep), 'meanOnDims': lambda E, x, d, keep=0: mean_(x, d, keep),
    'flatten': lambda E, x, a=0, b=-1: flatten(x, a, b), 'square': lambda E, x: un(lambda v: v * v, x), 'exp': lambda E, x: un(math.exp, x),
    'max': lambda E, x: X([], [max(x.data)], x.dtype), 'min': lambda E, x: X([], [min(x.data)], x.dtype),
    'ne': lambda E, a, b: ew(lambda x, y: b01(x != y), a, b, BOOL),
    'layerNorm': lambda E, x, s, w, b, eps: lanenorm(x, s, w, b, eps, True), 'rmsNorm': lambda E, x, s, w, eps: lanenorm(x, s, w, None, eps, False),
    # the rotation itself is decided by C16: here any function of the three arguments does
    'ropeApply': lambda E, x, r, o: x.like(x.shape, [v * 1.5 + r.data[(k + 5 * int(o)) % len(r.data)] for k, v in enumerate(x.data)]),
    'sum': lambda E, x: X([], [sum(x.data)], x.dtype), 'sumOnDim': lambda E, x, d, keep=0: sumdims(x, [d], keep), 'sumOnDims': lambda E, x, d, keep=0: sumdims(x, d, keep),
    'softmax': lambda E, x, d: overlane(x, d, softmax), 'logSoftmax': lambda E, x, d: overlane(x, d, logsoftmax),
    'tril': lambda E, x, k=0: tril(x, k, lambda i, j, k: j - i <= k), 'triu': lambda E, x, k=0: tril(x, k, lambda i, j, k: j - i >= k),
    'logicNot': lambda E, x: un(lambda v: b01(not v), x, BOOL), 'logicAnd': lambda E, a, b: ew(lambda x, y: b01(x and y), a, b, BOOL), 'logicOr': lambda E, a, b: ew(lambda x, y: b01(x or y), a, b, BOOL),
    'gt': lambda E, a, b: ew(lambda x, y: b01(x > y), a, b, BOOL), 'lt': lambda E, a, b: ew(lambda x, y: b01(x < y), a, b, BOOL),
    'ge': lambda E, a, b: ew(lambda x, y: b01(x >= y), a, b, BOOL), 'le': lambda E, a, b: ew(lambda x, y: b01(x <= y), a, b, BOOL), 'eq': lambda E, a, b: ew(lambda x, y: b01(x == y), a, b, BOOL),
    'clampMin': lambda E, x, y: ew(max, x, y), 'maximum': lambda E, x, y: ew(max, x, y), 'minimum': lambda E, x, y: ew(min, x, y), 'clampMax': lambda E, x, y: ew(min, x, y),
    'neg': lambda E, x: un(lambda v: -v, x), 'sqrt': lambda E, x: un(math.sqrt, x),
    'dropoutMasked': lambda E, x, m, p: ew(lambda a, b: a * b / p, x, m),
    'squeeze': lambda E, x, d: x.like([s for k, s in enumerate(x.shape) if s != 1 or k not in [ax(int(q), len(x.shape)) for q in (d if isinstance(d, list) else [d])]], x.data),
    'unsqueeze': lambda E, x, d: x.like((lambda s, k: s[:k] + [1] + s[k:])(x.shape, ax(d, len(x.shape) + 1)), x.data),
    'fillMasked': lambda E, x, m, v: ew(lambda a, b: v if b else a, x, m),
    'cast': lambda E, x, dt: X(x.shape, [b01(v) for v in x.data] if dt == BOOL else x.data, dt),
}


class Env:
    """replay of the operator calls of one function on one model"""

    def __init__(self, I, params, seed, ctx=None, this=None):
        params = dict(enumerate(params)) if not isinstance(params, dict) else params
        self.I, self.params, self.seed, self.ctx, self.this = I, params, seed, ctx, this or {}
        self.env = {}
        self.rand = []
        self.hook = None

    # ---- scalar and list values
    def v(self, t):
        if t in self.env: return self.env[t]
        r = self.v_(t)
        return r

    def v_(self, t):
        op = t.op
        if op == 'c': return t.a[0]
        if op == 'null': return None
        if op == 'enum': return t.a[1] if isinstance(t.a[1], (int, float)) else t
        if op == 'param':
            if t.a[0] not in self.params: raise Stuck('parameter %s' % (t.a[0],))
            return self.params[t.a[0]]
        if op == 'this': return self.this
        if op in ('mut', 'mutd', 'addr', 'addrof', 'deref', 'move', 'fwd'): return self.v(t.a[0])
        if op in ('cast', 'fcast', 'icast', 'toint', 'tofloat', 'toopt'):
            x = self.v(t.a[-1]) if op in ('cast', 'fcast') else self.v(t.a[0])
            return float(x) if op == 'tofloat' and isinstance(x, (int, float)) else x
        if op == 'lam': return t
        if op == 'bool': return bool(self.v(t.a[0]))
        if op == 'list': return [self.v(x) for x in t.a[0]]
        if op == 'phi': return self.v(t.a[1]) if self.truth(t.a[0]) else self.v(t.a[2])
        if op == 'not': return not self.truth(t.a[0])
        if op == 'and': return all(self.truth(x) for x in t.a)
        if op == 'or': return any(self.truth(x) for x in t.a)
        if op in ('<', '<=', '=='):
            x, y = self.v(t.a[0]), self.v(t.a[1])
            if op == '==': return x is y if isinstance(x, (X, Nil)) or isinstance(y, (X, Nil)) else x == y
            return x < y if op == '<' else x <= y
        if op == '+': return sum(self.num(x) for x in t.a)
        if op == '*': return math.prod(self.num(x) for x in t.a)
        if op == '-': return -self.num(t.a[0]) if len(t.a) == 1 else self.num(t.a[0]) - self.num(t.a[1])
        if op == 'neg': return -self.num(t.a[0])
        if op in ('/', '%'):
            x, y = self.num(t.a[0]), self.num(t.a[1])
            if y == 0: raise Stuck('division by zero')
            if isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op == '/' else x - q * y
            return x / y if op == '/' else math.fmod(x, y)
        if op == 'elem':
            l = self.v(t.a[0])
            if not isinstance(l, (list, tuple)): raise Stuck('element of %s' % show(t.a[0])[:60])
            i = len(l) - 1 if t.a[1].op == 'last' else self.v(t.a[1])
            if not isinstance(i, int) or not 0 <= i < len(l): raise Undef('list index')
            return l[i]
        if op == 'rec':
            b = self.v(t.a[0])
            if isinstance(b, Opts):
                o = Opts(b)
                for k, x in t.a[1]: o[k] = self.v(x)
                return o
            if isinstance(b, tuple):
                d = dict(zip(('h', 'w'), b))
                for k, x in t.a[1]: d[k] = self.v(x)
                return (d['h'], d['w'])
            raise Stuck('record ' + show(t)[:60])
        if op == 'fld':
            b = self.v(t.a[0])
            f = t.a[1]
            if isinstance(b, dict) and f in b: return b[f]
            if isinstance(b, tuple) and f in ('h', 'w'): return b[f == 'w']
            if isinstance(b, tuple) and f in ('first', 'second'): return b[f == 'second']
            if isinstance(b, Ctx) and f == 'savedInputs': return b.inputs
            raise Stuck('field %s' % show(t)[:60])
        if op == 'new':
            n = t.a[0].split('<')[0]
            a = t.a[1]
            if n == 'tinytorch::Scalar' and len(a) == 1: return self.v(a[0])
            if n == 'tinytorch::Tensor' and not a: return Nil()
            if n == 'tinytorch::Tensor' and len(a) == 1: return self.v(a[0])
            if n == 'tinytorch::Tensor' and len(a) == 2:
                o = self.v(a[1])
                r = self.env[t] = self.garbage(self.v(a[0]), o.get('dtype_', F32) if isinstance(o, Opts) else F32)
                return r
            if n == 'tinytorch::TensorIteratorCpu':
                r = self.env[t] = Iter([self.v(x) for x in a])
                return r
            if n.startswith('tinytorch::DType'): return self.v(a[0])
            if n == 'tinytorch::Dim2D': return (self.v(a[0]),) * 2 if len(a) == 1 else tuple(self.v(x) for x in a) if a else (0, 0)
            if n in ('tinytorch::ArrayView', 'std::vector', 'tinytorch::SmallVector', 'std::initializer_list', 'tinytorch::IValue', 'std::optional') and len(a) == 1: return self.v(a[0])
            if n == 'tinytorch::options::Options' or n == 'tinytorch::Options': return Opts(requiresGrad_=0, dtype_=F32)
            raise Stuck('new ' + show(t)[:60])
        f = alg.stdfn(t)
        if f:
            a = [self.num(x) for x in alg.fargs(t)]
            fn = {'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'pow': math.pow, 'max': max, 'min': min, 'abs': abs, 'sin': math.sin, 'cos': math.cos}.get(f)
            if fn is None: raise Stuck(f)
            return fn(*a)
        if op == 'call': return self.call(t)
        raise Stuck(op + ' ' + show(t)[:80])

    def num(self, t):
        x = self.v(t)
        if isinstance(x, bool): return int(x)
        if not isinstance(x, (int, float)): raise Stuck('number ' + show(t)[:60])
        return x

    def truth(self, t):
        x = self.v(t)
        if isinstance(x, X): raise Stuck('truth of a tensor')
        if isinstance(x, (Ctx, Opts)): return True
        return bool(x)

    # ---- calls
    def call(self, t):
        """a call without effect, evaluated where it is used"""
        n = t.a[0]
        if n.startswith('std::numeric_limits') : 
            k = n.split('::')[-1]
            if k in ('infinity', 'max', 'lowest', 'epsilon', 'min'): return {'infinity': math.inf, 'max': 3.4e38, 'lowest': -3.4e38, 'epsilon': 1.2e-7, 'min': 1.2e-38}[k]
        last = n.split('::')[-1]
        if t.a[1] is not None:
            o = self.v(t.a[1])
            a = [self.v(x) for x in t.a[2]]
            return self.method(o, n, last, a)
        if n.startswith(OPN): return self.op(last.split('<')[0], [self.v(x) for x in t.a[2]])
        return self.static(n, last, [self.v(x) for x in t.a[2]])

    def method(self, o, n, last, a):
        if isinstance(o, (X, Nil)):
            if last == 'defined': return o.defined
            if last == 'requiresGrad': return bool(o.rg)
            if not o.defined: raise Undef('use of an undefined tensor (%s)' % last)
            if last == 'shape': return o.shape[ax(a[0], len(o.shape))] if a else list(o.shape)
            if last == 'size' and a:
                return o.shape[ax(a[0], len(o.shape))]
            if last == 'dim': return len(o.shape)
            if last == 'numel': return len(o.data)
            if last == 'dtype': return o.dtype
            if last in ('detach', 'clone'): 
                r = X(o.shape, o.data, o.dtype)
                r.rg = bool(o.rg) if last == 'clone' else False
                return r
            if last == 'options': return Opts(requiresGrad_=int(bool(o.rg)), dtype_=o.dtype)
            if last == 'item': 
                need(len(o.data) == 1)
                return o.data[0]
            if last in ('reshape_', 'view_', 'unsqueeze_', 'squeeze_', 'flatten_'):
                s = infer(len(o.data), a[0]) if last in ('reshape_', 'view_') else None
                if s is None: raise Stuck(last)
                o.shape = s
                return None
            if last == 'addGrad':
                g = a[0]
                need(g.shape == o.shape or len(g.data) == len(o.data) and False, 'gradient of shape %s for a tensor of shape %s' % (g.shape, o.shape))
                o.grad = g if o.grad is None else ew(lambda x, y: x + y, o.grad, g)
                return None
            if last == 'isScalar': return not o.shape
            if last in ('fillZero_', 'fillOne_', 'fill_'):
                v = a[0] if a else last == 'fillOne_'
                o.data = [float(v)] * len(o.data)
                return None
            if last == 'contiguous': return o
            if last == 'to' and len(a) == 1 and isinstance(a[0], int): return OPS['cast'](self, o, a[0])
            if n.startswith(TN) and last in OPS: return OPS[last](self, o, *a)
            if n.startswith(TN) and last == 'permute': return OPS['permute'](self, o, *a)
        if isinstance(o, Iter):
            s = []
            for x in o.ins: s = bshape(s, x.shape)
            if last == 'setupBroadcast': return s
            if last == 'isBroadcastOk': return True
            if last == 'isUnary': return len(o.ins) == 1
            if last.startswith('forEach') and len(a) == 2 and isinstance(a[0], X):
                need(list(a[0].shape) == s, 'iteration over %s into a tensor of shape %s' % (s, a[0].shape))
                ps = [mk('ELT', k) for k in range(len(o.ins))]
                f = self.I.apply(a[1], ps)
                out = []
                for i in idxs(s):
                    for p, x in zip(ps, o.ins): self.env[p] = bget(x, i)
                    out.append(self.num(f))
                a[0].data = out
                return None
        if isinstance(o, Ctx):
            if last == 'pushData':
                o.data.append(a[0])
                return None
            if last == 'popData':
                need(o.data, 'popData without data')
                return o.data.pop(0)
        if last in ('toBool', 'toTensor', 'toInt', 'toFloat', 'toDim2D', 'toInt64', 'toDouble', 'toString', 'toEnum', 'value', 'get') and not a: return o
        if isinstance(o, (list, tuple)):
            if last == 'size': return len(o)
            if last == 'empty': return not o
            if last in ('front', 'back'): return o[0 if last == 'front' else -1]
            if last in ('operator[]', 'at'): return o[a[0]]
            if last == 'view': return o
        if last == 'has_value': return o is not None
        if last in ('value', 'operator*') and not a: return o
        if isinstance(o, Opts):
            if last == 'noGrad': return Opts(o, requiresGrad_=0)
            if last == 'dtype' and a: return Opts(o, dtype_=a[0])
            if last == 'dtype': return o['dtype_']
            if last == 'requiresGrad' and a: return Opts(o, requiresGrad_=int(a[0]))
        raise Stuck('method %s' % n)

    def static(self, n, last, a):
        if self.hook is not None and last.split('<')[0] == 'apply': return self.hook(n, a)
        if n.startswith(TN):
            last = last.split('<')[0]
            dt = next((x['dtype_'] for x in a if isinstance(x, Opts)), F32)
            if last in ('zeros', 'ones', 'empty'): return X(a[0], [1.0 if last == 'ones' else 0.0] * math.prod(a[0]), dt) if last != 'empty' else self.garbage(a[0], dt)
            if last == 'full': return X(a[0], [float(a[1])] * math.prod(a[0]), dt)
            if last in ('zerosLike', 'onesLike'): return X(a[0].shape, [1.0 if last == 'onesLike' else 0.0] * len(a[0].data), a[0].dtype)
            if last == 'scalar': return X([], [a[0]], dt)
            if last == 'arange':
                s, e, st = a[:3]
                return X([len(range(s, e, st))], list(range(s, e, st)), I64)
            if last == 'bernoulli':
                self.rand.append(('bernoulli', a[1]))
                return X(a[0], [float(h(self.seed, 'bern', k) < 0.6) for k in range(math.prod(a[0]))], dt)
        if n == 'tinytorch::function::reduceGrad': return sumto(a[1], a[0].shape)
        raise Stuck('function %s' % n)

    def garbage(self, s, dt): return X(s, [7.25e5 + k for k in range(math.prod(s))], dt)

    def op(self, name, a):
        for x in a:
            if isinstance(x, Nil) and (name not in MAYBE or x is a[0]): raise Undef('undefined tensor given to %s' % name)
        if name.endswith('Inplace') and name[:-7] in OPS:
            r = OPS[name[:-7]](self, *a)
            need(r.shape == a[0].shape, 'in-place result shape')
            a[0].data = r.data
            return None
        if name == 'indexPutAdvance':
            s, inner, offs = index_advance(a[0], a[1])
            v = a[2]
            need(not v.shape or len(v.data) == len(offs) * inner, 'values to put')
            d = list(a[0].data)
            for k, o in enumerate(offs):
                for j in range(inner): d[o + j] = v.data[k * inner + j if v.shape else 0]
            a[0].data = d
            return None
        if name == 'indexAdvance':
            s, inner, offs = index_advance(a[0], a[1])
            return a[0].like(list(s) + a[0].shape[len(a[1]):], [a[0].data[o + j] for o in offs for j in range(inner)])
        if name == 'dropout':
            # op::dropout keeps an element with probability p and divides by p
            self.rand.append(('dropout', a[1]))
            m = X(a[0].shape, [float(h(self.seed, 'drop', k) < 0.6) for k in range(len(a[0].data))])
            return OPS['dropoutMasked'](self, a[0], m, a[1])
        if name in ('softmaxBackward', 'logSoftmaxBackward'):
            g, y, d = a
            out = [0.0] * len(y.data)
            for l in lanes(y, d):
                if name == 'softmaxBackward':
                    s = sum(g.data[k] * y.data[k] for k in l)
                    for k in l: out[k] = y.data[k] * (g.data[k] - s)
                else:
                    s = sum(g.data[k] for k in l)
                    for k in l: out[k] = g.data[k] - math.exp(y.data[k]) * s
            return y.like(y.shape, out)
        f = OPS.get(name)
        if f is None: raise Stuck('op %s' % name)
        return f(self, *a)

    # ---- replay
    def run(self, rec):
        for e in self.I.evs:
            if e.kind not in ('call', 'trap', 'return'): continue
            if e.kind == 'call' and 'Logger' in e.fn: continue
            on = all(self.truth(c) == bool(p) for c, p in e.gl)
            if not on: continue
            if e.kind == 'trap': raise Trap(evl(e))
            if e.kind == 'return':
                if e.rec is rec: return self.v(e.args[0]) if e.args and e.args[0].op != 'void' else None
                continue
            r = self.do(e)
            if e.ret is not None and e.ret.op != 'void': self.env[e.ret] = r
        return None

    def do(self, e):
        n = e.fn if e.fn.startswith(('tinytorch::', 'std::')) else e.fn
        last = n.split('::')[-1].split('<')[0]
        if e.obj is not None:
            o = self.v(e.obj)
            return self.method(o, n, last, [self.v(x) for x in e.args])
        if n.startswith(OPN): return self.op(last, [self.v(x) for x in e.args])
        if e.ret is not None and e.ret.op == 'call' and e.ret.a[0].startswith(OPN): return self.op(e.ret.a[0].split('::')[-1].split('<')[0], [self.v(x) for x in e.args])
        if n.startswith('std::'):
            if e.ret is None or e.ret.op == 'void': return None
            return self.v_(e.ret)
        return self.static(n, last, [self.v(x) for x in e.args])


class Ctx:
    def __init__(self, inputs): self.inputs, self.data = inputs, []


def evl(e): return '%s:%s' % (e.rec.get('file', '?'), e.line())


def policy():
    pre = ('tinytorch::Tensor::', 'tinytorch::options', 'tinytorch::Scalar::', 'tinytorch::AutogradContext::', 'tinytorch::IValue::', 'tinytorch::op::', 'tinytorch::function::reduceGrad')
    return Policy(opaque=lambda r: r['fn'].startswith(pre) or bool(r.get('_disp')))


def thresholds(I):
    """the constants a function's conditions compare with"""
    ints, floats = set(), set()
    for e in I.evs:
        for g in [c for c, _ in e.gl] + list(e.args or ()):
            if not isinstance(g, T): continue
            for x in subterms(g):
                if x.op not in ('<', '<=', '=='): continue
                for y in x.a:
                    c = cval(y) if isinstance(y, T) else None
                    if isinstance(c, bool) or c is None: continue
                    if float(c).is_integer() and 2 <= c <= 2000: ints.add(int(c))
                    if abs(c) < 1e6: floats.add(float(c))
    return sorted(ints)[:4], sorted(floats)[:6]


def close(a, b, tol=1e-6):
    if len(a) != len(b): return False
    return all(x == y or (math.isnan(x) and math.isnan(y)) or abs(x - y) <= tol * (1 + abs(x) + abs(y)) for x, y in zip(a, b))
