"""Operators that move elements: which element of which input every element of the result is."""
from kcontent import *
from c_lane import ld
import random

DTS = None
ESZ = {'Float32': 4, 'Float16': 2, 'BFloat16': 2, 'Int32': 4, 'Int64': 8, 'Bool': 1, 'Float64': 8, 'UInt8': 1, 'Int8': 1}


def P_(K, n): return next(p for p in K.ps if p.a[1] == n)


class Rnd(random.Random):
    """sizes are small, except that a model may be asked for one size around a constant found in the kernel"""
    big = None

    def dim(self, a, b):
        if self.big is not None and self.random() < .5:
            k, self.big = self.big, None
            return k + self.randint(0, 2)
        if self.big is None and self.scaled: b = a
        return self.randint(a, b)

    scaled = False


def rshape(rnd, lo=1, hi=4, mx=4): return [rnd.dim(1, mx) for _ in range(rnd.randint(lo, hi))]


def thresholds(K):
    """constants of the kernel that its behaviour may depend on"""
    out = set()
    seen = set()
    def look(t):
        for x in subterms(t):
            if x in seen: continue
            seen.add(x)
            if x.op == 'c' and isinstance(x.a[0], int) and not isinstance(x.a[0], bool) and 4 <= abs(x.a[0]) <= 4096: out.add(abs(x.a[0]))
    for s in K.stores:
        if s.err is not None: continue
        look(s.addr)
        look(s.val)
        for c, p in s.conds: look(c)
        for l, N in s.nest: look(N)
    for e in K.I.evs:
        for c, p in e.gl: look(c)
    for st, t, e in K.rets:
        for c, p in getattr(st, 'gl', ()) or (): look(c)
        if t is not None: look(t)
    return sorted(out)[:6]


# each entry: generator of one random model, and the definition as (shape, contents)
# generator: gen(rnd, ps) -> (shapes, params, intb) keyed by parameter position
SPECS = {}


def spec(*ops):
    def f(c):
        for o in ops: SPECS[o] = c
        return c
    return f


def view(m, t): return lambda i: m.load(t, i)


@spec('permute')
class Permute:
    def gen(rnd, K):
        t, d = K.ps
        s = rshape(rnd)
        o = list(range(len(s)))
        rnd.shuffle(o)
        o = [x - (len(s) if rnd.random() < .3 else 0) for x in o]
        return {t: s}, {d: o}, {}

    def ref(m, K):
        t, d = K.ps
        s = m.shape(t)
        o = [x % len(s) for x in m.params[d]]
        return permuted(m, t, s, o)


def permuted(m, t, s, o):
    r = [s[x] for x in o]
    st = strides(s)
    return r, [m.load(t, sum(c * st[o[k]] for k, c in enumerate(coords(i, r)))) for i in range(math.prod(r))]


@spec('permuteAll')
class PermuteAll:
    def gen(rnd, K): return {K.ps[0]: rshape(rnd)}, {}, {}

    def ref(m, K):
        s = m.shape(K.ps[0])
        return permuted(m, K.ps[0], s, list(range(len(s)))[::-1])


@spec('transpose2d')
class Transpose2d:
    def gen(rnd, K): return {K.ps[0]: rshape(rnd, 2, 2)}, {}, {}

    def ref(m, K): return permuted(m, K.ps[0], m.shape(K.ps[0]), [1, 0])


@spec('transpose')
class Transpose:
    def gen(rnd, K):
        s = rshape(rnd)
        n = len(s)
        return {K.ps[0]: s}, {K.ps[1]: rnd.randint(-n, n - 1), K.ps[2]: rnd.randint(-n, n - 1)}, {}

    def ref(m, K):
        s = m.shape(K.ps[0])
        a, b = [m.params[p] % len(s) for p in K.ps[1:]]
        o = list(range(len(s)))
        o[a], o[b] = o[b], o[a]
        return permuted(m, K.ps[0], s, o)


def idx_of(m, K, t, idx):
    s = m.shape(t)
    return sum((x % n) * st for x, n, st in zip(idx, s, strides(s)))


@spec('index')
class Index:
    def gen(rnd, K):
        s = rshape(rnd)
        k = rnd.randint(1, len(s))
        return {K.ps[0]: s}, {K.ps[1]: [rnd.randint(-n, n - 1) for n in s[:k]]}, {}

    def ref(m, K):
        t, d = K.ps
        s, ix = m.shape(t), m.params[d]
        o = idx_of(m, K, t, ix)
        r = s[len(ix):]
        return r, [m.load(t, o + i) for i in range(math.prod(r))]


@spec('indexPut')
class IndexPut:
    inplace = True

    def gen(rnd, K):
        s = rshape(rnd)
        k = rnd.randint(1, len(s))
        return {K.ps[0]: s, K.ps[2]: s[k:] if rnd.random() < .6 and k < len(s) else []}, {K.ps[1]: [rnd.randint(-n, n - 1) for n in s[:k]]}, {}

    def ref(m, K):
        t, d, v = K.ps
        s, ix = m.shape(t), m.params[d]
        o = idx_of(m, K, t, ix)
        n = math.prod(s[len(ix):])
        out = [m.load(t, i) for i in range(math.prod(s))]
        for i in range(n): out[o + i] = m.load(v, 0 if not m.shape(v) else i)
        return s, out


def adv(rnd, K, ps):
    t, ix = ps
    s = rshape(rnd, 1, 4)
    k = rnd.randint(1, len(s))
    q = rshape(rnd, 1, 2, 3)
    sh = {t: s}
    ib = {}
    for i in range(k):
        e = mk('elem', ix, C(i))
        sh[e] = q
        ib[e] = (True, s[i])
    return s, k, q, sh, {ix: [None] * k}, ib


@spec('indexAdvance')
class IndexAdvance:
    def gen(rnd, K):
        s, k, q, sh, ps, ib = adv(rnd, K, K.ps)
        return sh, ps, ib

    def ref(m, K):
        t, ix = K.ps
        s, k = m.shape(t), len(m.params[ix])
        e0 = mk('elem', ix, C(0))
        q = m.shape(e0)
        r = q + s[k:]
        b = math.prod(s[k:])
        out = []
        for i in range(math.prod(q)):
            o = sum((int(m.load(mk('elem', ix, C(j)), i)) % s[j]) * strides(s)[j] for j in range(k))
            out += [m.load(t, o + x) for x in range(b)]
        return r, out


@spec('indexPutAdvance')
class IndexPutAdvance:
    inplace = True

    def gen(rnd, K):
        s, k, q, sh, ps, ib = adv(rnd, K, K.ps[:2])
        sh[K.ps[2]] = [] if rnd.random() < .4 else q + s[k:]
        return sh, ps, ib

    def ref(m, K):
        t, ix, v = K.ps
        s, k = m.shape(t), len(m.params[ix])
        b = math.prod(s[k:])
        out = [m.load(t, i) for i in range(math.prod(s))]
        for i in range(math.prod(m.shape(mk('elem', ix, C(0))))):
            o = sum((int(m.load(mk('elem', ix, C(j)), i)) % s[j]) * strides(s)[j] for j in range(k))
            for x in range(b): out[o + x] = m.load(v, i * b + x if m.shape(v) else 0)
        return s, out


def tri(lower):
    class Tri:
        def gen(rnd, K): return {K.ps[0]: rshape(rnd, 2, 4)}, {K.ps[1]: rnd.randint(-3, 3)}, {}

        def ref(m, K):
            t, dg = K.ps
            s, k = m.shape(t), m.params[dg]
            out = []
            for i in range(math.prod(s)):
                c = coords(i, s)
                keep = c[-1] <= c[-2] + k if lower else c[-1] >= c[-2] + k
                out.append(m.load(t, i) if keep else 0)
            return s, out
    return Tri


SPECS['tril'], SPECS['triu'] = tri(True), tri(False)


def gs_gen(rnd, K, t, dim, ix):
    s = rshape(rnd)
    d = rnd.randrange(len(s))
    q = [rnd.randint(1, n) for n in s]
    q[d] = rnd.dim(1, 4)
    return s, d, q, {t: s, ix: q}, {dim: d - (len(s) if rnd.random() < .4 else 0)}, {ix: (True, s[d])}


def gs_off(m, t, d, ix, i):
    s = m.shape(t)
    c = coords(i, m.shape(ix))
    c[d] = int(m.load(ix, i)) % s[d]
    return lin_(c, s)


@spec('gather')
class Gather:
    def gen(rnd, K): return gs_gen(rnd, K, *K.ps)[3:]

    def ref(m, K):
        t, dim, ix = K.ps
        d = m.params[dim] % len(m.shape(t))
        q = m.shape(ix)
        return q, [m.load(t, gs_off(m, t, d, ix, i)) for i in range(math.prod(q))]


class Scatter:
    def gen(rnd, K):
        s, d, q, sh, ps, ib = gs_gen(rnd, K, *K.ps[:3])
        sh[K.ps[3]] = q
        return sh, ps, ib

    def ref(m, K):
        t, dim, ix, src = K.ps
        s = m.shape(t)
        d = m.params[dim] % len(s)
        out = [m.load(t, i) for i in range(math.prod(s))]
        for i in range(math.prod(m.shape(ix))): out[gs_off(m, t, d, ix, i)] = m.load(src, i)
        return s, out


class ScatterInplace(Scatter):
    inplace = True


SPECS['scatter'], SPECS['scatterInplace'] = Scatter, ScatterInplace


@spec('expand')
class Expand:
    def gen(rnd, K):
        r = rshape(rnd)
        n = rnd.randint(0, len(r))
        s = [1 if rnd.random() < .5 else x for x in r[len(r) - n:]]
        p = [x for x in r]
        for i in range(n):
            if s[i] == r[len(r) - n + i] and rnd.random() < .3: p[len(r) - n + i] = -1
        return {K.ps[0]: s}, {K.ps[1]: p}, {}

    def ref(m, K):
        t, sz = K.ps
        s, p = m.shape(t), m.params[sz]
        k = len(p) - len(s)
        r = [(s[i - k] if i >= k else 1) if x == -1 else x for i, x in enumerate(p)]
        return r, [m.load(t, lin_([0 if n == 1 else c for c, n in zip(coords(i, r)[k:], s)], s)) for i in range(math.prod(r))]


@spec('indexSelect')
class IndexSelect:
    def gen(rnd, K):
        t, dim, ix = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        return {t: s, ix: [rnd.dim(1, 4)]}, {dim: d - (len(s) if rnd.random() < .4 else 0)}, {ix: (False, s[d])}

    def ref(m, K):
        t, dim, ix = K.ps
        s = m.shape(t)
        d = m.params[dim] % len(s)
        r = s[:d] + m.shape(ix) + s[d + 1:]
        out = []
        for i in range(math.prod(r)):
            c = coords(i, r)
            c[d] = int(m.load(ix, c[d]))
            out.append(m.load(t, lin_(c, s)))
        return r, out


@spec('repeatInterleave')
class RepeatInterleave:
    def gen(rnd, K):
        t, rep, dim = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        return {t: s}, {dim: d - (len(s) if rnd.random() < .4 else 0), rep: rnd.dim(1, 3)}, {}

    def ref(m, K):
        t, rep, dim = K.ps
        s, n = m.shape(t), m.params[rep]
        d = m.params[dim] % len(s)
        r = s[:d] + [s[d] * n] + s[d + 1:]
        out = []
        for i in range(math.prod(r)):
            c = coords(i, r)
            c[d] //= n
            out.append(m.load(t, lin_(c, s)))
        return r, out


@spec('narrow')
class Narrow:
    def gen(rnd, K):
        t, dim, start, length = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        a = rnd.randrange(s[d])
        n = rnd.randint(1, s[d] - a)
        return {t: s}, {dim: d - (len(s) if rnd.random() < .4 else 0), start: a - (s[d] if rnd.random() < .4 else 0), length: n}, {}

    def ref(m, K):
        t, dim, start, length = K.ps
        s = m.shape(t)
        d = m.params[dim] % len(s)
        return part(m, t, d, m.params[start] % s[d], m.params[length])


def part(m, t, d, a, n):
    s = m.shape(t)
    r = s[:d] + [n] + s[d + 1:]
    out = []
    for i in range(math.prod(r)):
        c = coords(i, r)
        c[d] += a
        out.append(m.load(t, lin_(c, s)))
    return r, out


@spec('split')
class Split:
    many = True

    def gen(rnd, K):
        t, n, dim = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        k = rnd.randint(1, 3)
        s[d] = k * rnd.randint(1, 3)
        return {t: s}, {n: k, dim: d - (len(s) if rnd.random() < .4 else 0)}, {}

    def ref(m, K):
        t, n, dim = K.ps
        s = m.shape(t)
        d, k = m.params[dim] % len(s), m.params[n]
        return [part(m, t, d, a, k) for a in range(0, s[d], k)]


@spec('splitSections')
class SplitSections:
    many = True

    def gen(rnd, K):
        t, sec, dim = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        q = [rnd.dim(1, 3) for _ in range(rnd.randint(1, 3))]
        s[d] = sum(q)
        return {t: s}, {sec: q, dim: d - (len(s) if rnd.random() < .4 else 0)}, {}

    def ref(m, K):
        t, sec, dim = K.ps
        d = m.params[dim] % len(m.shape(t))
        q = m.params[sec]
        return [part(m, t, d, sum(q[:i]), n) for i, n in enumerate(q)]


@spec('chunk')
class Chunk:
    many = True

    def gen(rnd, K):
        t, n, dim = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        s[d] = rnd.dim(1, 7)
        return {t: s}, {n: rnd.dim(1, 5), dim: d - (len(s) if rnd.random() < .4 else 0)}, {}

    def ref(m, K):
        t, n, dim = K.ps
        s = m.shape(t)
        d = m.params[dim] % len(s)
        k = min(m.params[n], s[d])
        w = -(-s[d] // k)
        return [part(m, t, d, a, min(w, s[d] - a)) for a in range(0, s[d], w)]


def listgen(rnd, K, extra):
    ts = K.ps[0]
    k = rnd.randint(1, 3)
    return ts, k


@spec('concat')
class Concat:
    def gen(rnd, K):
        ts, dim = K.ps
        s = rshape(rnd)
        d = rnd.randrange(len(s))
        k = rnd.randint(1, 3)
        sh = {}
        for i in range(k):
            sh[mk('elem', ts, C(i))] = s[:d] + [rnd.dim(1, 3)] + s[d + 1:]
        return sh, {ts: [None] * k, dim: d - (len(s) if rnd.random() < .4 else 0)}, {}

    def ref(m, K):
        ts, dim = K.ps
        es = [mk('elem', ts, C(i)) for i in range(len(m.params[ts]))]
        s = m.shape(es[0])
        d = m.params[dim] % len(s)
        return joined(m, es, d)


def joined(m, es, d):
    s = m.shape(es[0])
    ns = [m.shape(e)[d] for e in es]
    r = s[:d] + [sum(ns)] + s[d + 1:]
    out = []
    for i in range(math.prod(r)):
        c = coords(i, r)
        j = 0
        while c[d] >= ns[j]:
            c[d] -= ns[j]
            j += 1
        out.append(m.load(es[j], lin_(c, m.shape(es[j]))))
    return r, out


@spec('stack')
class Stack:
    def gen(rnd, K):
        ts, dim = K.ps
        s = rshape(rnd, 0, 3)
        k = rnd.randint(1, 3)
        d = rnd.randint(0, len(s))
        return {mk('elem', ts, C(i)): s for i in range(k)}, {ts: [None] * k, dim: d - (len(s) + 1 if rnd.random() < .4 else 0)}, {}

    def ref(m, K):
        ts, dim = K.ps
        es = [mk('elem', ts, C(i)) for i in range(len(m.params[ts]))]
        s = m.shape(es[0])
        d = m.params[dim]
        if d < 0: d += len(s) + 1
        r = s[:d] + [len(es)] + s[d:]
        out = []
        for i in range(math.prod(r)):
            c = coords(i, r)
            out.append(m.load(es[c[d]], lin_(c[:d] + c[d + 1:], s)))
        return r, out


def models_for(K, cls, n, seed):
    for i in range(n):
        rnd = Rnd(seed * 1000 + i)
        shapes, ps, ib = cls.gen(rnd, K)
        m = TModel(K, shapes, ps, i)
        m.intb = ib
        yield m
    for k in thresholds(K):
        for i in range(8 if k < 300 else 3):
            rnd = Rnd(seed * 1000 + 500 + i)
            rnd.big, rnd.scaled = k * (1 + i % 2), k > 20
            shapes, ps, ib = cls.gen(rnd, K)
            if rnd.big is not None or sum(math.prod(x) for x in shapes.values()) > 9000: continue
            m = TModel(K, shapes, ps, i)
            m.intb = ib
            yield m


def evaluate(K, cls, m):
    """(shape, contents) pairs computed by the kernel"""
    if hasattr(cls, 'pre'): cls.pre(m, K)
    if getattr(cls, 'inplace', False): return [(m.shape(K.ps[0]), inplace_value(K, K.ps[0], m))]
    t = returned(K, m)
    if getattr(cls, 'many', False): return tensor_list(K, t, m)
    return [tensor_value(K, t, m)]


def tensor_list(K, t, m):
    l = K.res(t, ())
    while l.op in ('mut', 'mutd'): l = l.a[0]
    if l.op == 'phi': l = l.a[1] if istrue(m, l.a[0], True) else l.a[2]
    out = {}
    if l.op == 'SCAT':
        lid, N, ix, val = l.a[:4]
        n = m.count(N)
        for k in range(n):
            m.its = {lid: k}
            j = m.v(ix)
            out[j] = one_tensor(K, val, lid, k, m)
            m.its = {}
        return [out[j] for j in sorted(out)]
    if l.op == 'APPS':
        lid, N, body = l.a[:3]
        res = []
        for k in range(m.count(N)):
            b = body
            m.its = {lid: k}
            while b.op == 'phi': b = b.a[1] if istrue(m, b.a[0], True) else b.a[2]
            if b is not NONE: res.append(one_tensor(K, b, lid, k, m))
            m.its = {}
        return res
    raise NoEval('list of results')


def one_tensor(K, val, lid, k, m):
    """tensor made by iteration k of loop lid"""
    t = K.root(val)
    m.its = {lid: k}
    if t.op == 'new' and len(t.a[1]) == 4: return tensor_value(K, t, m)
    t0, t = t, marked(t, it(lid))
    shape = m.shape(t)
    n = math.prod(shape)
    ini = fresh_init(K, t, m)
    # stores into the list element, from this or a later loop over the list
    mem = {}
    for s in K.stores:
        if s.err is not None: raise s.err
        r = s.root
        ren = None
        for x, _ in s.nest:
            if subst(r, {it(x): it(lid)}) is t: ren = x
        if (r is t or r is t0 or created(r) is not None and created(r) == created(t0)) and lid in [x for x, _ in s.nest]: ren = lid
        if ren is None: continue
        rest = [(x, N) for x, N in s.nest if x != ren]

        def go(i):
            if i == len(rest):
                if all(istrue(m, c, p) for c, p in s.conds):
                    mem[int(m.v(s.addr))] = value(m, s.val)
                return
            x, N = rest[i]
            for q in range(m.count(N)):
                m.its[x] = q
                go(i + 1)
            m.its.pop(x, None)
        m.its = {ren: k}
        go(0)
    m.its = {lid: k}
    if any(not 0 <= a < n for a in mem): return shape, 'a write outside the result'
    return shape, [mem.get(i, ini(i)) for i in range(n)]


def compare(res, K, r, op, dt, cls, n, seed):
    key = '%s/%s' % (op, dt)
    done = 0
    why = None
    for m in models_for(K, cls, n, seed):
        try:
            want = cls.ref(m, K)
            want = want if isinstance(want, list) else [want]
            got = evaluate(K, cls, m)
        except Skip:
            continue
        except Refused as e:
            return res.bad(key, loc_of(r.fn), '%s[%s] ends the program instead of computing for %s' % (op, dt, mdesc(m)))
        except (NoEval, Undecided) as e:
            why = why or e
            continue
        done += 1
        if len(got) != len(want):
            return res.bad(key, loc_of(r.fn), '%s[%s] yields %d tensors instead of %d for %s' % (op, dt, len(got), len(want), mdesc(m)))
        for j, ((gs, gv), (ws, wv)) in enumerate(zip(got, want)):
            what = 'result %d of ' % j if len(got) > 1 else ''
            if list(gs) != list(ws): return res.bad(key, loc_of(r.fn), '%s%s[%s] has shape %s instead of %s for %s' % (what, op, dt, gs, ws, mdesc(m)))
            if not same_lists(gv, wv): return res.bad(key, loc_of(r.fn), '%s%s[%s]: %s for %s' % (what, op, dt, describe(m, gv, wv), mdesc(m)))
    if not done: raise Unk('%s: no model evaluated (%s)' % (key, why))
    if why is not None: raise Unk('%s: %s' % (key, why))
    res.ok('%s: element map agrees with the definition' % key)


def check_xform(res):
    P = res.p
    O = Ops(P)
    res.rule = 'closed-form element map of every indexing / copying kernel (loops solved as recurrences, block copies as ranges of stores)'
    n = 0
    for op, cls in SPECS.items():
        for (o, dev, dt), r in sorted(O.table.items(), key=lambda kv: str(kv[0])):
            if o != op or dev != 'CPU': continue
            n += 1
            with res.instance('%s/%s' % (op, dt)):
                K = Kern(P, r.fn, esz=ESZ.get(dt))
                res.fn(r.fn)
                compare(res, K, r, op, dt, cls, 120, 1)
    res.floor('kernels', n, 60)
