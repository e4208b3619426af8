"""Shape operations: the shape and strides a tensor ends up with, as closed forms of the method's arguments."""
from kcontent import *
import random

IMPL = 'tinytorch::TensorImpl::'
THIS = mk('deref', mk('this'))


def impl_policy():
    return Policy(opaque=lambda rec: not rec['fn'].startswith(IMPL) or red_opaque(rec))


class SModel(TModel):
    def lst2(self, t):
        if t.op == 'fld':
            v = self.params.get(t)
            if isinstance(v, list): return list(v)
        return TModel.lst2(self, t)


def rowmajor(s):
    out = []
    for i in range(len(s)): out.append(math.prod(s[i + 1:]))
    return out


def inside(K, st):
    """loops a return sits in"""
    out = []
    for c, p in st.gl:
        if not p: continue
        for l, info in K.I.loopinfo.items():
            lc = info['cond']
            if lc is not None and (c is lc or lc.op == 'and' and c in lc.a) and l not in out: out.append(l)
    return out


def taken(K, m, st, budget=[0]):
    ls = inside(K, st)
    if not ls: return active(K, m, st)
    ctx = tuple(ls)

    def go(i):
        if i == len(ls):
            for c, p in st.gl:
                if c.op == 'inrange': continue
                if bool(m.v(K.res(c, ctx))) != p: return False
            return True
        n = K.trip(ls[i])
        for k in range(m.count(n)):
            m.its[ls[i]] = k
            r = go(i + 1)
            m.its.pop(ls[i], None)
            if r: return True
        return False
    return go(0)


def active(K, m, st):
    lc = set()
    for l, info in K.I.loopinfo.items():
        c = info['cond']
        if c is not None: lc.update([c] + list(c.a if c.op in ('not', 'and') else ()))
    for c, p in st.gl:
        if c.op == 'inrange' or c in lc: continue
        if bool(m.v(K.res(c, ()))) != p: return False
    return True


def field(K, m, v, name, init):
    """value of a member at the end"""
    if v is None: return init
    while v.op == 'phi': v = v.a[1] if m.v(K.res(v.a[0], ())) else v.a[2]
    if v.op == 'rec':
        for k, x in v.a[1]:
            if k == name: return m.lst(K.res(x, ())) if isinstance(init, list) else m.v(K.res(x, ()))
        return field(K, m, v.a[0], name, init)
    if v is THIS or v.op == 'this': return init
    if v.op == 'hav' and v.a[2] is not None and isinstance(v.a[2], T): return field(K, m, v.a[2], name, init)
    raise NoEval('object ' + show(v)[:60])


def run_method(K, m, S):
    # a return met earlier in program order comes first; joins may have dropped its negation from later guards
    st = next((x[0] for x in K.rets if taken(K, m, x[0])), None)
    if st is None: raise NoEval('no return')
    v = st.mem.get(mk('D', mk('this')))
    return field(K, m, v, 'shape_', S), field(K, m, v, 'strides_', rowmajor(S)), field(K, m, v, 'numel_', math.prod(S))


def rshape(rnd, lo=0, hi=4, one=.3): return [1 if rnd.random() < one else rnd.randint(1, 4) for _ in range(rnd.randint(lo, hi))]


def factors(rnd, n):
    out = []
    while n > 1 and len(out) < 3:
        d = rnd.choice([k for k in range(1, n + 1) if n % k == 0])
        out.append(d)
        n //= d
    if n > 1: out.append(n)
    if rnd.random() < .3: out.insert(rnd.randint(0, len(out)), 1)
    return out


def g_reshape(rnd):
    S = rshape(rnd)
    n = math.prod(S)
    q = factors(rnd, n)
    r = rnd.random()
    if r < .4 and q: q[rnd.randrange(len(q))] = -1
    elif r < .5: q.append(2)
    elif r < .6 and len(q) > 1:
        a, b = rnd.sample(range(len(q)), 2)
        q[a] = q[b] = -1
    elif r < .7 and q: q[rnd.randrange(len(q))] = -1; q.append(rnd.choice([7, 0]))
    elif r < .75: S, q = [1] * rnd.randint(0, 2), []
    elif r < .8: q = []
    return S, [q]


def r_reshape(S, q):
    n = math.prod(S)
    if q.count(-1) > 1: return S
    q = list(q)
    if -1 in q:
        k = math.prod(x for x in q if x != -1)
        if not k or n % k: return S
        q[q.index(-1)] = n // k
    return q if math.prod(q) == n else S


def g_flatten(rnd):
    S = rshape(rnd)
    if not S: return S, [0, -1]
    a = rnd.randrange(len(S))
    b = rnd.randrange(a, len(S))
    return S, [a - len(S) if rnd.random() < .3 else a, b - len(S) if rnd.random() < .5 else b]


def r_flatten(S, a, b):
    n = len(S)
    a, b = a + n if a < 0 else a, b + n if b < 0 else b
    return S[:a] + [math.prod(S[a:b + 1])] + S[b + 1:]


def g_unflatten(rnd):
    S = rshape(rnd, 1)
    d = rnd.randrange(len(S))
    S[d] = rnd.choice([2, 4, 6, 12, 1])
    q = factors(rnd, S[d]) or [1]
    r = rnd.random()
    if r < .4: q[rnd.randrange(len(q))] = -1
    elif r < .55: q.append(5)
    elif r < .65: q = [-1, 5]
    return S, [d - len(S) if rnd.random() < .4 else d, q]


def r_unflatten(S, d, q):
    d = d + len(S) if d < 0 else d
    if q.count(-1) > 1: raise Skip()
    q = list(q)
    if -1 in q:
        k = math.prod(x for x in q if x != -1)
        if not k or S[d] % k: return S
        q[q.index(-1)] = S[d] // k
    return S[:d] + q + S[d + 1:] if math.prod(q) == S[d] else S


def g_squeeze(rnd):
    S = rshape(rnd, 0, 4, .6)
    return S, [rnd.randint(-len(S) - 1, len(S))]


def r_squeeze(S, d):
    n = len(S)
    if d < -n or d >= n: return S
    d = d + n if d < 0 else d
    return S[:d] + S[d + 1:] if S[d] == 1 else S


def g_squeezes(rnd):
    S = rshape(rnd, 0, 4, .6)
    ds = rnd.sample(range(len(S)), rnd.randint(0, len(S)))
    return S, [[d - len(S) if rnd.random() < .4 else d for d in ds]]


def r_squeezes(S, ds):
    n = len(S)
    ds = [d + n if d < 0 else d for d in ds] or range(n)
    return [x for i, x in enumerate(S) if not (i in ds and x == 1)]


def g_unsqueeze(rnd):
    S = rshape(rnd, 0, 3)
    return S, [rnd.randint(-len(S) - 2, len(S) + 1)]


def r_unsqueeze(S, d):
    n = len(S)
    if d > n or d < -n - 1: return S
    d = d + n + 1 if d < 0 else d
    return S[:d] + [1] + S[d:]


def g_new(rnd): return [], [rshape(rnd)]


METHODS = {('reshape_', 1): (g_reshape, r_reshape), ('flatten_', 2): (g_flatten, r_flatten), ('unflatten_', 2): (g_unflatten, r_unflatten),
           ('squeeze_', 'int'): (g_squeeze, r_squeeze), ('squeeze_', 'list'): (g_squeezes, r_squeezes), ('unsqueeze_', 1): (g_unsqueeze, r_unsqueeze)}


def pick(rec):
    n = rec['fn'][len(IMPL):]
    for (name, kind), v in METHODS.items():
        if n != name: continue
        if kind == 'int' and 'ArrayView' in rec['ps'][0]['t']: continue
        if kind == 'list' and 'ArrayView' not in rec['ps'][0]['t']: continue
        if isinstance(kind, int) and len(rec['ps']) != kind: continue
        return v
    return None


def method(res, P, rec, gen, ref, key, n=800, ctor=False):
    K = Kern(P, rec, policy=impl_policy(), live=True)
    res.fn(rec)
    rnd = random.Random(5)
    done = 0
    fl = lambda x: mk('fld', THIS, x)
    for i in range(n):
        S, args = gen(rnd)
        m = SModel(K, {}, {fl('shape_'): list(S), fl('numel_'): math.prod(S), fl('strides_'): rowmajor(S)}, i)
        for p, a in zip(K.ps, args): m.params[p] = a
        try:
            want = args[0] if ctor else ref(S, *args)
            got, strd, num = run_method(K, m, S)
        except OOB:
            res.bad(key + '/bounds', loc_of(rec), '%s reads outside a list for shape %s, arguments %s' % (key, S, args))
            return
        except Skip:
            continue
        done += 1
        if list(got) != list(want):
            res.bad(key + '/shape', loc_of(rec), '%s gives shape %s instead of %s for shape %s, arguments %s' % (key, got, want, S, args))
            return
        if list(strd) != rowmajor(want):
            res.bad(key + '/strides', loc_of(rec), '%s leaves strides %s with shape %s (from shape %s, arguments %s)' % (key, strd, want, S, args))
            return
        if num != math.prod(want):
            res.bad(key + '/numel', loc_of(rec), '%s leaves element count %s with shape %s (from shape %s, arguments %s)' % (key, num, want, S, args))
            return
    if done < n // 3: raise Undecided('too few models')
    for x in ('shape', 'strides', 'numel'): res.ok('%s/%s: %d models' % (key, x, done))


WRAP = {'reshape': 'reshape_', 'view': 'reshape_', 'flatten': 'flatten_', 'unflatten': 'unflatten_', 'squeeze': 'squeeze_', 'unsqueeze': 'unsqueeze_',
        'reshapeInplace': 'reshape_', 'flattenInplace': 'flatten_', 'unflattenInplace': 'unflatten_', 'squeezeInplace': 'squeeze_', 'unsqueezeInplace': 'unsqueeze_'}


def bare(t):
    def f(x):
        if x.op in ('mut', 'mutd', 'addr', 'deref', 'addrof'): return rewrite(x.a[0], f)
        if x.op == 'call' and x.a[3:] != (0,): return mk('call', x.a[0], rewrite(x.a[1], f) if x.a[1] is not None else None, tuple(rewrite(y, f) if isinstance(y, T) else y for y in x.a[2]), 0)
        if x.op == 'rec' and x.a[0].op in ('param', 'call'): return rewrite(x.a[0], f)
        return None
    return rewrite(t, f)


def wrappers(res, P):
    O = Ops(P)
    pol = Policy(opaque=lambda r: r['fn'].startswith(('tinytorch::Tensor::', IMPL, 'tinytorch::options')) or r.get('_disp'))
    n = 0
    for op, m in WRAP.items():
        g = O.table.get((op, 'CPU', 'Float32'))
        if not g: continue
        rec = g.fn
        with res.instance('op/' + op):
            I = Interp(P, pol)
            rets = I.run(rec)
            res.fn(rec)
            ps = [mk('param', i, p['n']) for i, p in enumerate(rec['ps'])]
            calls = [e for e in I.evs if e.kind == 'call' and e.fn.startswith(IMPL) and e.fn.endswith('_') and e.fn != IMPL + 'ensureStorage']
            if any(e.kind == 'write' and 'TensorImpl' in str(e.fn) for e in I.evs): raise Unk('direct writes')
            n += 1
            key = 'op/' + op
            if not calls: raise Unk('no shape method')
            if not res.check(len(calls) == 1 and calls[0].fn == IMPL + m, key + '/method', loc_of(rec), 'op %s carries out %s' % (op, ', '.join(e.fn[len(IMPL):] for e in calls))): continue
            c = calls[0]
            args = [bare(a) for a in c.args]
            if all(x.op in ('param', 'c') for x in args):
                res.check(args == ps[1:], key + '/args', evloc(c), 'op %s hands (%s) to %s' % (op, ', '.join(map(show, args)), m))
            on = bare(c.obj)
            while on.op == 'call' and on.a[0].endswith('::getImpl'): on = on.a[1]
            if op.endswith('Inplace'):
                if on.op == 'param' or created(on): res.check(on is ps[0], key + '/self', evloc(c), 'op %s changes the shape of %s' % (op, show(on)[:60]))
            else:
                src = on
                cop = None
                while src.op == 'call' and src.a[0] in ('tinytorch::Tensor::detach', 'tinytorch::Tensor::clone'): src, cop = src.a[1], True
                rv = bare(rets[0][1]) if len(rets) == 1 else None
                if rv is None: raise Unk('returns')
                if src is ps[0] and (cop or on is ps[0]):
                    res.check(cop and rv is on, key + '/copy', evloc(c), 'op %s must reshape a copy of its argument and return it: reshapes %s, returns %s' % (op, show(on)[:60], show(rv)[:60]))
    res.floor('shape_operators', n, 6)


def created(t): return t.op in ('new', 'call')


def split(v, pick):
    """value under an assignment of its conditions"""
    def f(x):
        if x.op == 'phi':
            b = pick(x.a[0])
            return rewrite(x.a[1] if b else x.a[2], f)
        return None
    return rewrite(v, f)


def pointer(res, P):
    """element i of a tensor lives at storage base + (offset + i) * element size: every method that sets the data pointer agrees with the storage and offset it leaves behind"""
    n = 0
    for rec in P.funcs.values():
        if not rec['fn'].startswith(IMPL) or not rec.get('body'): continue
        if not any(x['k'] == 'Member' and x.get('n') == 'dataPtr_' for x in walk(rec['body'])): continue
        if rec['fn'] in (IMPL + 'ensureStorage',) or rec['n'].startswith('operator'): continue
        key = 'pointer/' + rec['fn'][len(IMPL):] + str(len(rec['ps']))
        with res.instance(key):
            I = Interp(P, Policy(opaque=lambda r: r['fn'].startswith(('tinytorch::Storage::', 'tinytorch::getAllocator', 'tinytorch::dtypeSize')) or r['fn'] == IMPL + 'ensureStorage'))
            rets = I.run(rec)
            for st, t, e in rets:
                v = st.mem.get(mk('D', mk('this')))
                if v is None: continue
                fl = lambda x: mk('fld', THIS, x)
                base0 = fl('storage_')
                conds = []
                for s in subterms(v):
                    if s.op == 'phi' and s.a[0] not in conds: conds.append(s.a[0])
                if len(conds) > 5: raise Unk('conditions')
                for bits in range(1 << len(conds)):
                    asg = {c: bool(bits >> i & 1) for i, c in enumerate(conds)}
                    # storage present on entry: the pointer of the entry state is only defined then
                    if any(c is base0 and not p for c, p in asg.items()): continue
                    w = split(v, lambda c: asg.get(c, True))
                    fs = {}
                    while w.op in ('rec', 'mut'):
                        for k, x in w.a[1] if w.op == 'rec' else (): fs.setdefault(k, x)
                        w = w.a[0]
                    if w.op == 'hav': raise Unk('object state')
                    if 'dataPtr_' not in fs and 'storage_' not in fs and 'storageOffset_' not in fs: continue
                    d, s, o = (fs.get(x, fl(x)) for x in ('dataPtr_', 'storage_', 'storageOffset_'))
                    if s.op == 'null' and d.op == 'null':
                        n += 1
                        res.ok()
                        continue
                    base = [x for x in subterms(d) if x.op == 'call' and x.a[0].startswith('tinytorch::Storage::dataPtr')]
                    if len(base) != 1: raise Unk('pointer ' + show(d)[:60])
                    n += 1
                    own = bare(base[0].a[1])
                    res.check(own is bare(s), key + '/base', loc_of(rec), '%s leaves a data pointer into %s while the storage is %s' % (key, show(own)[:60], show(bare(s))[:60]))
                    size = [x for x in subterms(d) if x.op == 'call' and x.a[0].endswith('dtypeSize')]
                    size = size[0] if size else mk('call', 'tinytorch::dtypeSize', None, (mk('fld', fl('options_'), 'dtype_'),), 0)
                    want = mk('+', base[0], mk('*', o, size))
                    eq = poly(bare(d)) == poly(bare(want))
                    res.check(eq, key + '/offset', loc_of(rec), '%s points the data at %s; the element offset is %s' % (key, show(bare(d))[:120], show(o)[:60]))
    res.floor('pointer_states', n, 2)


def poly(t):
    """sum of products over opaque atoms"""
    if t.op == '+': return padd(poly(t.a[0]), poly(t.a[1]))
    if t.op == '-' and len(t.a) == 2: return padd(poly(t.a[0]), pmul({(): -1}, poly(t.a[1])))
    if t.op == '*': return pmul(poly(t.a[0]), poly(t.a[1]))
    if t.op == 'c': return {(): t.a[0]} if t.a[0] else {}
    if t.op == 'neg': return pmul({(): -1}, poly(t.a[0]))
    if t.op == 'call' and t.a[0].endswith('dtypeSize'): return {('size',): 1}
    return {(id(t),): 1}


def padd(a, b):
    o = dict(a)
    for k, v in b.items():
        o[k] = o.get(k, 0) + v
        if not o[k]: del o[k]
    return o


def pmul(a, b):
    o = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l, key=str))
            o[m] = o.get(m, 0) + v * w
    return o


def check_shape(res):
    P = res.p
    res.rule = 'closed-form result shape and strides of every shape method'
    k = 0
    for rec in P.funcs.values():
        if not rec['fn'].startswith(IMPL) or not rec.get('body'): continue
        s = pick(rec)
        if s:
            k += 1
            key = rec['fn'][len(IMPL):] + ('dims' if 'ArrayView' in rec['ps'][0]['t'] and 'squeeze_' in rec['fn'] else '')
            with res.instance(key): method(res, P, rec, s[0], s[1], key)
    res.floor('methods', k, 4)
    with res.instance('wrappers'): wrappers(res, P)
    with res.instance('pointer'): pointer(res, P)
