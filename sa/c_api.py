"""Public API: every Tensor method, operator and functional entry point carries out the operation it names on its own arguments, in order."""
from model import *
from alg import *
from c_grad import FN, TENS
from c_engine import nv, Unk

T_ = 'tinytorch::Tensor::'
F_ = 'tinytorch::function::'
OPERS = {'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div', 'operator<': 'lt', 'operator<=': 'le', 'operator>': 'gt', 'operator>=': 'ge',
         'operator==': 'eq', 'operator!=': 'ne', 'operator&': 'logicAnd', 'operator|': 'logicOr', 'operator~': 'logicNot',
         'operator+=': 'add', 'operator-=': 'sub', 'operator*=': 'mul', 'operator/=': 'div'}
PLAIN = set('''sin cos sqrt pow maximum minimum matmul reshape view flatten unflatten unsqueeze transpose tril triu chunk narrow concat stack hstack vstack gather scatter
expand indexSelect repeatInterleave topk multinomial sort cumsum relu gelu silu siluMul softmax logSoftmax add sub mul div lt le gt ge eq ne logicNot logicAnd logicOr
mseLoss nllLoss layerNorm rmsNorm ropeApply'''.split())
REDN = {'sum', 'mean'}
ALPHA = {'add', 'sub'}
# entry points whose forward combines several operators: only the forwarding of the arguments is this property's business
STAGE1 = {'linear': 'FuncLinear', 'dropout': 'FuncDropout', 'maxPool2d': 'FuncMaxPool', 'conv2d': 'FuncConv2D', 'embedding': 'FuncEmbedding', 'sdpAttention': 'FuncSDPAttention'}
FILLS = {'fill_': ('fill', None), 'fillZero_': ('fill', (0,)), 'fillOne_': ('fill', (1,)), 'fillMasked_': ('fillMaskedInplace', None), 'fillLinSpace_': ('fillLinSpace', None),
         'fillUniform_': ('fillRandUniform', None), 'fillNormal_': ('fillRandNormal', None), 'fillBernoulli_': ('fillRandBernoulli', None)}
MAKE = {'ones': ('fill', lambda a: (1,), 1), 'zeros': ('fill', lambda a: (0,), 1), 'full': ('fill', lambda a: (a[1],), 2), 'scalar': ('fill', lambda a: (a[0],), 1), 'rand': ('fillRandUniform', lambda a: (0, 1), 1),
        'randn': ('fillRandNormal', lambda a: (0, 1), 1), 'uniform': ('fillRandUniform', lambda a: (a[1], a[2]), 3), 'bernoulli': ('fillRandBernoulli', lambda a: (a[1],), 2),
        'onesLike': ('fill', lambda a: (1,), 1), 'zerosLike': ('fill', lambda a: (0,), 1), 'fullLike': ('fill', lambda a: (a[1],), 2)}
DTYPES = {'float': 0, 'tinytorch::Half': 1, 'tinytorch::BFloat16': 2, 'int': 3, 'long': 4, 'unsigned char': 5, 'bool': 5}


class Odd(Exception):
    pass


def islist(t): return 'ArrayView<' in t or 'initializer_list' in t or 'vector<' in t


def pol(P):
    keep = (T_, 'tinytorch::TensorImpl', 'tinytorch::options', 'tinytorch::Scalar::', 'tinytorch::op::', 'tinytorch::Storage')
    follow = ('ones', 'zeros', 'full', 'fillZero_', 'fillOne_', 'fill_')
    return Policy(opaque=lambda r: r['fn'].startswith(keep) and not (r['fn'].startswith(T_) and r['n'] in follow) or r.get('_disp') or r['n'] in ('apply', 'inplaceSet') and not r['fn'].startswith(F_ + 'apply'))


def norm(t):
    """normal form of a value: ('p', i) argument, number, ('op', name, args), ('func', class, args), ('scalar', v), ('first'/'second', v), ('list', ...)"""
    while t.op in ('mut', 'mutd', 'addr', 'deref', 'addrof'): t = t.a[0]
    if t.op == 'this': return ('p', 'self')
    if t.op == 'param': return ('p', t.a[0])
    v = cval(t)
    if isinstance(v, (int, float, bool)): return int(v) if v == int(v) else v
    if t.op == 'new' and t.a[0] == 'tinytorch::Scalar' and len(t.a[1]) == 1: return norm(t.a[1][0])
    if t.op == 'new' and 'ArrayView<' in t.a[0] and len(t.a[1]) == 1: return norm(t.a[1][0])
    if t.op == 'list': return ('list',) + tuple(norm(x) for x in t.a[0])
    if t.op == 'fld' and t.a[1] in ('first', 'second'): return (t.a[1], norm(t.a[0]))
    if t.op == 'enum': return ('enum', t.a[1])
    if t.op == 'call':
        n = t.a[0]
        if n.startswith(OPNS): return ('op', n[len(OPNS):].split('<')[0]) + tuple(norm(x) for x in t.a[2])
        if n.endswith('::apply') and 'Function<' in n: return ('func', n.split('Function<')[1].split('>')[0].split('::')[-1]) + tuple(norm(x) for x in t.a[2])
        if n == T_ + 'scalar' and len(t.a[2]) == 2: return ('scalar', norm(t.a[2][0]), optof(t.a[2][1]))
    if t.op == 'toint' or t.op == 'icast': return norm(t.a[0])
    return ('t', nv(t))


def optof(o):
    """options derived from a tensor's own, without gradient tracking: the tensor"""
    while o.op in ('mut', 'mutd', 'addr', 'deref', 'addrof'): o = o.a[0]
    if o.op == 'rec':
        if {k for k, v in o.a[1]} - {'requiresGrad_'}: return None
        return optof(o.a[0])
    if o.op == 'call' and o.a[0] == T_ + 'options': return norm(o.a[1])
    if o.op == 'call' and o.a[0].startswith(T_ + 'Options'): return None
    return None


def subs(x, env):
    if isinstance(x, tuple):
        if x[:1] == ('p',): return env.get(x[1], x)
        return tuple(subs(y, env) for y in x)
    return x


class Api:
    def __init__(self, P):
        self.P, self.pol = P, pol(P)
        self.fw = {}

    def forward(self, cls):
        """operator term of FuncX::forward over its own parameters"""
        if cls in self.fw: return self.fw[cls]
        r = None
        for rec in self.P.by_name.get(F_ + cls + '::forward', []):
            if not rec.get('body'): continue
            I = Interp(self.P, self.pol)
            rets = I.run(rec)
            if len(rets) == 1 and rets[0][1] is not None:
                r = (rec, norm(rets[0][1]))
            elif len(rets) == 1 or not rets:
                r = (rec, None)
        self.fw[cls] = r
        return r

    def expand(self, x):
        if isinstance(x, tuple):
            if x[:1] == ('func',):
                f = self.forward(x[1])
                if f is None or f[1] is None: return x
                n = len(f[0]['ps'])
                env = {i + 1: a for i, a in enumerate(x[2:])}
                if len(env) != n - 1: return x
                return subs(f[1], env)
            return tuple(self.expand(y) for y in x)
        return x


def clean(x):
    """has the value been followed completely?"""
    if isinstance(x, tuple): return x[:1] not in (('t',), ('func',)) and all(clean(y) for y in x)
    return True


def expected(name, ps, typ):
    """reference for entry point `name` with argument normal forms ps (receiver first) and their types"""
    n = len(ps)
    if name == 'relu': return ('op', 'clampMin', ps[0], ('scalar', 0, ps[0]))
    if name in ALPHA: return ('op', name) + tuple(ps) + ((1,) if n == 2 else ())
    if name in PLAIN: return ('op', name) + tuple(ps)
    if name == 't': return ('op', 'transpose', ps[0], 0, 1)
    if name == 'permute': return ('op', 'permuteAll', ps[0]) if n == 1 else ('op', 'permute') + tuple(ps)
    if name == 'squeeze': return ('op', 'squeeze', ps[0], ps[1] if islist(typ[1]) else ('list', ps[1]))
    if name == 'split': return ('op', 'splitSections' if islist(typ[1]) else 'split') + tuple(ps)
    if name in ('min', 'max'): return ('op', name + ('OnDim' if n > 1 else '')) + tuple(ps)
    if name in ('argmin', 'argmax'): return ('op', name, ps[0]) if n == 1 else ('second', ('op', name[3:] + 'OnDim') + tuple(ps))
    sfx = '' if n == 1 or typ[1] == 'bool' else 'OnDims' if islist(typ[1]) else 'OnDim'
    if name in REDN: return ('op', name + sfx) + tuple(ps)
    if name == 'varMean': return ('op', 'varMean' + sfx) + tuple(ps)
    if name == 'var': return ('first', ('op', 'varMean' + sfx) + tuple(ps))
    return None


def show_(x):
    if not isinstance(x, tuple): return str(x)
    if x[:1] == ('p',): return 'arg%s' % x[1] if x[1] != 'self' else 'self'
    if x[:1] in (('op',), ('func',)): return '%s(%s)' % (x[1], ', '.join(show_(y) for y in x[2:]))
    if x[:1] == ('t',): return show(x[1])[:50]
    if x[:1] == ('scalar',): return 'scalar(%s)' % show_(x[1])
    if x[:1] in (('first',), ('second',)): return '%s.%s' % (show_(x[1]), x[0])
    return '(' + ', '.join(show_(y) for y in x) + ')'


def same(got, want):
    """scalar operands: the value matters; options are compared only when both are known"""
    if isinstance(got, tuple) and isinstance(want, tuple):
        if got[:1] == ('scalar',) and want[:1] == ('scalar',):
            return same(got[1], want[1]) and (got[2] is None or want[2] is None or got[2] == want[2])
        return len(got) == len(want) and all(same(a, b) for a, b in zip(got, want))
    return got == want and isinstance(got, tuple) == isinstance(want, tuple)


def entries(P):
    for rec in sorted(P.funcs.values(), key=lambda r: r['u']):
        if not rec.get('body') or rec.get('ctor') or rec.get('dtor'): continue
        fn = rec['fn']
        if fn.startswith(T_) and fn.count('::') == 2: yield rec, 'Tensor'
        elif fn.startswith(F_) and fn.count('::') == 2: yield rec, 'function'
        elif fn.startswith('tinytorch::operator') and any(TENS in p['t'] for p in rec['ps']): yield rec, 'free'


def cases(gl, t):
    if t.op == 'phi':
        return cases(gl + ((t.a[0], True),), t.a[1]) + cases(gl + ((t.a[0], False),), t.a[2])
    return [(gl, t)]


def check_api(res):
    P = res.p
    Ops(P)
    A = Api(P)
    res.rule = 'value returned by every API entry point, followed through function:: and FuncX::forward, equals the operator it names applied to its arguments in order'
    k = nf = nm = 0
    for rec, kind in entries(P):
        name = rec['n']
        static = rec.get('static') or rec.get('st')
        key = '%s/%s/%d%s' % (kind, name, len(rec['ps']), 'L' if len(rec['ps']) > (kind != 'Tensor') and islist(rec['ps'][0 if kind == 'Tensor' else 1]['t']) else 'S' if any('Scalar' in p['t'] for p in rec['ps']) else '')
        base = OPERS.get(name)
        inpl = False
        if base is None and name.endswith('_') and name not in FILLS and name != 'scatter_': base, inpl = name[:-1], True
        elif base is None: base = name
        if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='): inpl = True
        with res.instance(key):
            if kind == 'Tensor' and name in FILLS:
                nf += fills(res, P, rec, key)
                continue
            if name == 'scatter_':
                nf += scatter(res, P, A, rec, key)
                continue
            if kind == 'Tensor' and name in MAKE:
                nm += makers(res, P, rec, key)
                continue
            if kind == 'Tensor' and name == 'to' and len(rec['ps']) == 1 and 'DType' in rec['ps'][0]['t']:
                cast(res, P, rec, key)
                continue
            ps, typ = [], []
            if kind == 'Tensor' and not (name in ('maximum', 'minimum')):
                ps.append(('p', 'self'))
                typ.append(TENS)
            for i, p in enumerate(rec['ps']):
                ps.append(('p', i))
                typ.append(strip_cvref(p['t']))
            if name == 'operator-' and len(ps) == 1: continue
            tens = next((a for a, t in zip(ps, typ) if t == TENS), None)
            args = [('scalar', a, tens) if t == 'tinytorch::Scalar' and base in ('add', 'sub', 'mul', 'div', 'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'pow') and (kind != 'function') else a for a, t in zip(ps, typ)]
            want = ('func', STAGE1[base]) + tuple(args) if base in STAGE1 and kind == 'function' else expected(base, args, typ)
            if want is None: continue
            I = Interp(P, A.pol)
            rets = I.run(rec)
            res.fn(rec)
            where = loc_of(rec)
            if inpl:
                sets = [e for e in I.evs if e.kind == 'call' and e.fn == T_ + 'inplaceSet']
                if len(sets) != 1 or sets[0].guard: raise Unk('in-place form')
                e = sets[0]
                o = norm(e.obj)
                if clean(o): res.check(o == ('p', 'self'), key + '/self', evloc(e), 'in-place form %s replaces %s' % (name, show_(o)))
                got = norm(e.args[0])
            else:
                if not rets or any(r[1] is None for r in rets): raise Unk('%d returns' % len(rets))
                got = None
            vals = [((), got)] if got is not None else [x for st, t, e in rets for x in cases(st.gl, t)]
            und = 0
            for gl, v in vals:
                env, odd = {}, False
                for c, p in gl:
                    n = norm(c)
                    if isinstance(n, tuple) and n[:1] == ('p',): env[n[1]] = int(p)
                    else: odd = True
                if got is None: v = norm(v)
                if not (base in STAGE1 and kind == 'function'): v = A.expand(v)
                if not isinstance(v, tuple) or not clean(v if v[:1] != ('func',) else v[2:]) or v[:1] == ('func',) and want[:1] == ('op',):
                    und += 1
                    continue
                v, w = subs(v, env), subs(want, env)
                if odd and not same(v, w) and (v[:2] != w[:2] or len(v) != len(w)):
                    und += 1          # a special case of its own
                    continue
                if res.check(same(v, w), key, where, '%s%s(%s) computes %s instead of %s' % ('Tensor::' if kind == 'Tensor' else '', name, ', '.join(map(show_, ps)), show_(v), show_(w)), sample='%s = %s' % (key, show_(v))): k += 1
            if und: raise Unk('%d of %d results not followed' % (und, len(vals)))
    res.floor('entry_points', k, 110)
    res.floor('fills', nf, 5)
    res.floor('factories', nm, 6)


def opcalls(I):
    return [e for e in I.evs if e.kind == 'call' and e.fn.startswith(OPNS)]


def fills(res, P, rec, key):
    op, const = FILLS[rec['n']]
    I = Interp(P, pol(P))
    I.run(rec)
    res.fn(rec)
    cs = opcalls(I)
    if len(cs) != 1 or cs[0].guard: raise Unk('calls')
    got = (cs[0].fn[len(OPNS):].split('<')[0],) + tuple(norm(a) for a in cs[0].args)
    if not clean(got): raise Unk(show_(got))
    want = (op, ('p', 'self')) + (const if const is not None else tuple(('p', i) for i in range(len(rec['ps']))))
    res.check(got == want, key, evloc(cs[0]), '%s carries out %s instead of %s' % (rec['n'], show_(('op',) + got), show_(('op',) + want)), sample='%s = %s' % (key, show_(('op',) + got)))
    return 1


def scatter(res, P, A, rec, key):
    I = Interp(P, A.pol)
    I.run(rec)
    ap = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::apply') and 'Function<' in e.fn]
    if len(ap) != 1: raise Unk('calls')
    cls = ap[0].fn.split('Function<')[1].split('>')[0].split('::')[-1]
    f = A.forward(cls)
    args = tuple(norm(a) for a in ap[0].args)
    rec2 = f[0]
    I2 = Interp(P, A.pol)
    I2.run(rec2)
    cs = opcalls(I2)
    if len(cs) != 1 or cs[0].guard: raise Unk('calls')
    got = subs((cs[0].fn[len(OPNS):].split('<')[0],) + tuple(norm(a) for a in cs[0].args), {i + 1: a for i, a in enumerate(args)})
    if not clean(got): raise Unk(show_(got))
    ps = ([('p', 'self')] if rec['fn'].startswith(T_) else []) + [('p', i) for i in range(len(rec['ps']))]
    res.check(got == ('scatterInplace',) + tuple(ps), key, loc_of(rec), 'scatter_ carries out %s' % show_(('op',) + got), sample='%s = %s' % (key, show_(('op',) + got)))
    return 1


def shapeok(s, a):
    """shape argument of a created tensor"""
    n = norm(s)
    if isinstance(n, tuple) and n[:1] == ('t',):
        t = n[1]
        while t.op in ('mut', 'addr', 'deref', 'addrof'): t = t.a[0]
        if t.op == 'call' and t.a[0] in (T_ + 'shape', T_ + 'sizes') and not t.a[2]: return ('shapeof', norm(t.a[1]))
        if t.op == 'new' and 'ArrayView' in t.a[0] and not t.a[1]: return ('list',)
    return n


def makers(res, P, rec, key):
    op, argf, no = MAKE[rec['n']]
    I = Interp(P, pol(P))
    rets = I.run(rec)
    res.fn(rec)
    if len(rets) != 1: raise Unk('returns')
    rt = rets[0][1]
    while rt.op in ('mut', 'mutd'): rt = rt.a[0]
    a = [('p', i) for i in range(len(rec['ps']))]
    wants = (op,) + argf(a)
    if rt.op == 'call' and rt.a[0].startswith(T_):
        n = rt.a[0][len(T_):]
        if n not in MAKE: raise Unk('delegates')
        m = MAKE[n]
        args = [norm(x) for x in rt.a[2]]
        args[0] = shapeok(rt.a[2][0], a)
        got, s = (m[0],) + m[1](args), args[0]
    else:
        cs = opcalls(I)
        if len(cs) != 1 or cs[0].guard or rt.op != 'new': raise Unk('calls')
        t = cs[0].args[0]
        while t.op in ('mut', 'mutd', 'addr', 'deref'): t = t.a[0]
        if t is not rt and nv(t) is not nv(rt): raise Unk('filled tensor')
        got = (cs[0].fn[len(OPNS):].split('<')[0],) + tuple(norm(x) for x in cs[0].args[1:])
        s = shapeok(rt.a[1][0], a) if rt.a[1] else None
    if not clean(got): raise Unk(show_(got))
    res.check(got == wants, key + '/values', loc_of(rec), '%s fills its result by %s instead of %s' % (rec['n'], show_(('op',) + got), show_(('op',) + wants)), sample='%s = %s' % (key, show_(('op',) + got)))
    want = ('shapeof', ('p', 0)) if rec['n'].endswith('Like') else ('list',) if rec['n'] == 'scalar' else ('p', 0)
    if s is not None and clean(s): res.check(s == want, key + '/shape', loc_of(rec), '%s creates shape %s' % (rec['n'], show_(s)))
    return 1


def cast(res, P, rec, key):
    I = Interp(P, pol(P))
    rets = I.run(rec)
    res.fn(rec)
    new = [t for st, t, e in rets if t is not None and t.op in ('new', 'mut', 'mutd') and 'Tensor' in str(t)]
    cs = opcalls(I)
    if len(cs) != 1 or cs[0].fn[len(OPNS):].split('<')[0] != 'dtypeCast': raise Unk('conversion')
    src = norm(cs[0].args[1])
    if clean(src): res.check(src == ('p', 'self'), key + '/source', evloc(cs[0]), 'to(dtype) converts %s' % show_(src))
    d = cs[0].args[0]
    while d.op in ('mut', 'mutd', 'addr', 'deref', 'addrof'): d = d.a[0]
    if d.op == 'new' and len(d.a[1]) == 2:
        o = d.a[1][1]
        while o.op in ('mut', 'mutd'): o = o.a[0]
        if o.op == 'rec':
            v = dict(o.a[1]).get('dtype_')
            res.check(v is not None and norm(v) == ('p', 0), key + '/dtype', loc_of(rec), 'to(dtype) creates its result with element type %s' % (show(v) if v is not None else 'of the source'))
    for st, t, e in rets:
        if t is None: continue
        n = norm(t)
        if n == ('p', 'self'):
            eq = [c for c, p in st.gl if p and c.op == '==']
            res.check(any(mk('param', 0, rec['ps'][0]['n']) in c.a for c in eq), key + '/same', loc_of(rec), 'to(dtype) returns the tensor itself although its element type may differ')
