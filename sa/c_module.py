"""Modules: what a layer's forward computes in terms of its constructor arguments, which tensors it lists as parameters and states, how they are initialised,
and that the walks over a module tree (names, training mode, gradients, conversion, reset) reach every submodule."""
import itertools
import math
import random
from kcontent import *
from model import *

N = 'tinytorch::nn::'
THIS = mk('this')
OPQ = ('tinytorch::function::', 'tinytorch::Tensor::', 'tinytorch::op::', N + 'Initializer::')
TREE = tuple(N + 'Module::' + f for f in ('namedParameters', 'namedStates', 'parameters', 'states', 'forward', 'operator()', 'resetParameters', 'setTraining'))
STR = re.compile(r'std::(__cxx11::)?basic_string<char.*')


def fget(t):
    """field of *this"""
    if t.op in ('fld', 'F'):
        b = t.a[0]
        while b.op in ('mut', 'mutd', 'rec', 'hav') and b.a and isinstance(b.a[0], T): b = b.a[0]
        if b.op in ('deref', 'D') and b.a[0].op == 'this' or b.op == 'this': return t.a[1]
        if b.op == 'hav' and b.a[2] is mk('D', THIS): return t.a[1]
    return None


class Env:
    """a layer with given constructor arguments"""
    def __init__(self, fields, given): self.fields, self.given = fields, given


def norm(t, E, inner=False):
    """term in the constructor arguments (p, i) and the arguments of the method (x, i)"""
    n = lambda y: norm(y, E, inner)
    if not isinstance(t, T): return t
    if t.op in ('mut', 'mutd'):
        if fget(t) is None and fget(t.a[0]) is None and bare(t.a[0]).op in ('new', 'app', 'list', 'V'): return ('unk', 'mutated')
        return n(t.a[0])
    if t.op in ('cast', 'icast', 'toint', 'tofloat', 'tobool', 'bool', 'conv'): return n(t.a[-1] if isinstance(t.a[-1], T) else t.a[0])
    c = cval(t)
    if c is not None: return ('c', float(c))
    if t.op == 'str': return ('s', t.a[0])
    if t.op == 'param': return ('x' if not inner else 'p', t.a[0])
    f = fget(t)
    if f is not None:
        if inner: return ('field', f)
        v = E.fields.get(f)
        return ('field', f) if v is None else norm(v, E, True)
    if t.op == 'phi':
        c = n(t.a[0])
        k = truth_(c, E)
        if k is None: return ('if', c, n(t.a[1]), n(t.a[2]))
        return n(t.a[1] if k else t.a[2])
    if t.op == 'not': return ('not', n(t.a[0]))
    if t.op in ('deref', 'D', 'addr', 'addrof'):
        x = n(t.a[0])
        return x
    if t.op in ('fld', 'F'): return ('.', n(t.a[0]), t.a[1])
    if t.op == 'rec':
        b = n(t.a[0])
        return ('rec', b, tuple(sorted((k, n(v)) for k, v in t.a[1])))
    if t.op == 'list': return ('list',) + tuple(n(y) for y in t.a[0])
    if t.op == 'new':
        if t.a[0] == 'tinytorch::Tensor' and not t.a[1]: return ('undefined',)
        if len(t.a[1]) == 1 and t.a[0].startswith(('tinytorch::SmallVector', 'tinytorch::ArrayView', 'std::optional', 'std::reference_wrapper', 'tinytorch::Dim2D')): return n(t.a[1][0])
        if STR.match(t.a[0]) and t.a[1]: return n(t.a[1][0])
        return ('new', t.a[0].split('<')[0].split('::')[-1]) + tuple(n(y) for y in t.a[1])
    if t.op == 'call':
        f = t.a[0].split('<')[0].split('::')[-1] if not t.a[0].split('::')[-1].startswith('operator') else t.a[0].split('::')[-1]
        o = n(t.a[1]) if t.a[1] is not None else None
        a = tuple(n(y) for y in t.a[2])
        f = t.a[0].split('::')[-1]
        if o is not None and f == 'value_or': return o if truth_(o, E) else a[0]
        if o is not None and f in ('value', 'get', 'operator*', 'operator->') and not a: return o
        if o is not None and f in ('has_value', 'operator bool') and not a: return o
        if f in ('move', 'forward', 'ref') and t.a[0].startswith('std::') and len(a) == 1: return a[0]
        if t.a[0] == 'std::operator+' and len(a) == 2: return ('cat',) + parts(a[0]) + parts(a[1])
        return ('call', t.a[0].replace('tinytorch::', '')) + ((o,) if o is not None else ()) + a
    if t.op == 'enum': return ('enum',) + tuple(str(y) for y in t.a)
    if t.op in ('==', '!=', '<', '<=', 'and', 'or', '+', '-', '*', '/', 'neg'): return (t.op,) + tuple(n(y) for y in t.a)
    return (t.op,) + tuple(n(y) if isinstance(y, T) else y for y in t.a)


def parts(x):
    if x[0] == 'cat': return x[1:]
    if x == ('s', ''): return ()
    return (x,)


def truth_(c, E):
    if c[0] == 'not':
        k = truth_(c[1], E)
        return None if k is None else not k
    if c[0] == 'c': return bool(c[1])
    if c[0] in ('p',) and c[1] in E.given: return E.given[c[1]]
    if c[0] == '==' and ('c', 0.0) in c[1:]:
        k = truth_([x for x in c[1:] if x != ('c', 0.0)][0], E) if c[1] != c[2] else True
        return None if k is None else not k
    if c[0] == 'and':
        ks = [truth_(x, E) for x in c[1:]]
        return False if False in ks else None if None in ks else True
    return None


def holds(gl, E):
    for c, p in gl:
        if c.op == 'inrange': continue
        k = truth_(norm(c, E), E)
        if k is None: raise Unk('condition %s' % show(c)[:80])
        if k != p: return False
    return True


# ---- the layers

X = ('x', 0)


def P_(i): return ('p', i)


def D_(i, f): return ('.', ('p', i), f)


def opt(i): return ('rec', ('p', i), (('requiresGrad_', ('c', 1.0)),))


def empty(shape, o): return ('call', 'Tensor::empty', shape, opt(o))


UNDEF = ('undefined',)


def lst(*a): return ('list',) + a


def F_(name, *a): return ('call', 'function::' + name) + a


# class -> (function of the given flags, index of the flags, parameters)
def conv(g):
    W, B = empty(lst(P_(1), P_(0), D_(2, 'h'), D_(2, 'w')), 6), empty(lst(P_(1)), 6) if g[5] else UNDEF
    return F_('conv2d', X, W, B, P_(3), P_(4)), {'weight': W, **({'bias': B} if g[5] else {})}, {}


def linear(g):
    W, B = empty(lst(P_(1), P_(0)), 3), empty(lst(P_(1)), 3) if g[2] else UNDEF
    return F_('linear', X, W, B), {'weight': W, **({'bias': B} if g[2] else {})}, {}


def lnorm(g):
    W, B = empty(P_(0), 3), empty(P_(0), 3) if g[2] else UNDEF
    return F_('layerNorm', X, P_(0), W, B, P_(1)), {'weight': W, **({'bias': B} if g[2] else {})}, {}


def rnorm(g):
    W = empty(P_(0), 2)
    return F_('rmsNorm', X, P_(0), W, P_(1)), {'weight': W}, {}


def emb(g):
    W = empty(lst(P_(0), P_(1)), 2)
    return F_('embedding', X, W), {'weight': W}, {}


def rope(g):
    R = ('call', 'op::ropeInit', P_(0), P_(1), P_(2), P_(3), P_(4))
    return F_('ropeApply', X, R, ('c', 0.0)), {}, {'rope': R}


LAYERS = {
    'Flatten': ((), lambda g: (F_('flatten', X, P_(0), P_(1)), {}, {})),
    'Relu': ((), lambda g: (F_('relu', X), {}, {})),
    'Gelu': ((), lambda g: (F_('gelu', X), {}, {})),
    'Silu': ((), lambda g: (F_('silu', X), {}, {})),
    'Dropout': ((), lambda g: (F_('dropout', X, P_(0), ('field', 'training_')), {}, {})),
    'Softmax': ((), lambda g: (F_('softmax', X, P_(0)), {}, {})),
    'LogSoftmax': ((), lambda g: (F_('logSoftmax', X, P_(0)), {}, {})),
    'MaxPool2D': ((1,), lambda g: (F_('maxPool2d', X, P_(0), P_(1) if g[1] else P_(0), P_(2)), {}, {})),
    'Conv2D': ((5,), conv),
    'Linear': ((2,), linear),
    'LayerNorm': ((2,), lnorm),
    'RMSNorm': ((), rnorm),
    'Embedding': ((), emb),
    'RoPE': ((), rope),
}


def policy(): return Policy(opaque=lambda r: r['fn'].startswith(OPQ) or r['fn'] in TREE)


def combos(flags):
    out = [{}]
    for f in flags: out = [{**o, f: b} for o in out for b in (True, False)]
    return out


def sh_(x):
    if not isinstance(x, tuple): return str(x)
    k = x[0]
    if k == 'c': return '%g' % x[1]
    if k == 'x': return 'input' if x[1] == 0 else 'argument %d' % (x[1] + 1)
    if k == 'p': return 'constructor argument %d' % (x[1] + 1)
    if k == '.': return '%s.%s' % (sh_(x[1]), x[2])
    if k == 'call': return '%s(%s)' % (x[1].split('::')[-1], ', '.join(sh_(y) for y in x[2:]))
    if k == 'list': return '{%s}' % ', '.join(sh_(y) for y in x[1:])
    if k == 'rec': return '%s with %s' % (sh_(x[1]), ', '.join('%s=%s' % (a, sh_(b)) for a, b in x[2]))
    if k == 'undefined': return 'no tensor'
    if k == 'field': return x[1]
    return str(x)[:80]


def known(x):
    """is a term fully resolved (only parameters, constants, fields, library calls)"""
    if not isinstance(x, tuple): return True
    if x and isinstance(x[0], str) and x[0] in ('hav', 'if', 'param', 'V', 'call?', 'glob', 'icall', 'unk', 'phi'): return False
    return all(known(y) for y in x)


def training_name(P):
    """the field that train() sets"""
    r = P.by_name[N + 'Module::setTraining'][0]
    I = Interp(P, policy())
    I.run(r)
    for e in I.evs:
        if e.kind == 'write' and e.args and e.args[0] is mk('param', 0, r['ps'][0]['n']):
            f = fget(e.objloc)
            if f: return f
    return None


def layer(res, P, cls, spec, tname):
    flags, want = spec
    ctors = [r for r in P.by_name.get(N + cls + '::' + cls, []) if len(r['ps']) > max(flags, default=-1)]
    fw = [r for r in P.by_name.get(N + cls + '::forward', []) if len(r['ps']) == 1]
    if not fw: return 0
    fields = {}
    if ctors:
        I = Interp(P, policy())
        rets = I.run(ctors[0])
        res.fn(ctors[0])
        if len(rets) != 1: raise Unk('constructor of ' + cls)
        m = rets[0][0].mem.get(mk('D', THIS))
        fields = dict(m.a[1]) if m is not None and m.op == 'rec' else {}
    elif flags or cls not in ('Relu', 'Gelu', 'Silu'): raise Unk('no constructor of ' + cls)
    for g in combos(flags):
        E = Env(fields, g)
        wf, wp, ws = want(g)
        wf = tuple(('field', tname) if y == ('field', 'training_') else y for y in wf)
        tag = cls + (' with constructor argument%s %s' % ('s' if len(g) > 1 else '', ', '.join('%d %s' % (k + 1, 'given or true' if v else 'absent or false') for k, v in g.items())) if g else '')
        for x, w in forwards(P, fw[0], E, res, cls, wf, ctors[0] if ctors else None, tname):
            if not known(x): raise Unk('%s::forward gives %s' % (cls, sh_(x)))
            res.check(sameout(x, w), cls + '/forward', loc_of(fw[0]), '%s: forward computes %s instead of %s' % (tag, sh_(x), sh_(w)), '%s: forward is %s' % (tag, sh_(wf)))
        for nm, w in (('namedParameters_', wp), ('namedStates_', {**wp, **ws})):
            r = P.by_name.get(N + cls + '::' + nm)
            if not r:
                if nm == 'namedStates_': continue       # the default lists the parameters
                res.check(not w, cls + '/' + nm, loc_of(fw[0]), '%s: its parameters are not listed' % tag, '%s has no parameters' % tag)
                continue
            for x in returns(P, r[0], E, res):
                d = pairs(x)
                if d is None: raise Unk('%s::%s gives %s' % (cls, nm, str(x)[:100]))
                what = 'parameters' if nm == 'namedParameters_' else 'states'
                miss, more = [k for k in w if k not in d], [k for k in d if k not in w]
                if d.keys() == w.keys():
                    for k in w:
                        if not known(d[k]): raise Unk('%s::%s' % (cls, nm))
                        res.check(d[k] == w[k], '%s/%s' % (cls, nm), loc_of(r[0]), '%s: the %s listed as "%s" is not the tensor forward uses: %s instead of %s' % (tag, what[:-1], k, sh_(d[k]), sh_(w[k])),
                                  '%s lists %s' % (tag, k))
                else:
                    res.check(False, '%s/%s' % (cls, nm), loc_of(r[0]), '%s: listed %s are %s, the tensors forward uses are %s' % (tag, what, sorted(d), sorted(w)))
        for acc in ('weight', 'bias', 'cache'):
            r = P.by_name.get(N + cls + '::' + acc)
            k = 'rope' if acc == 'cache' else acc
            if r and (k in wp or k in ws):
                for x in returns(P, r[0], E, res): res.check(x == {**wp, **ws}[k], '%s/%s' % (cls, acc), loc_of(r[0]), '%s: %s() gives %s' % (tag, acc, sh_(x)), '%s: %s()' % (tag, acc))
    if cls == 'RoPE':
        for r in P.by_name[N + 'RoPE::forward']:
            if len(r['ps']) == 2:
                w = F_('ropeApply', X, ('call', 'op::ropeInit') + tuple(P_(i) for i in range(5)), ('x', 1))
                for x in returns(P, r, Env(fields, {}), res): res.check(x == w, 'RoPE/offset', loc_of(r), 'RoPE: forward with an offset computes %s' % sh_(x), 'RoPE with offset')
        for r in P.by_name.get(N + 'RoPE::resetParameters', []):
            I = Interp(P, policy())
            rets = I.run(r)
            res.fn(r)
            E = Env(fields, {})
            for st, t, *_ in rets:
                m = st.mem.get(mk('D', THIS))
                d = dict(m.a[1]) if m is not None and m.op == 'rec' else {}
                for k, v in d.items():
                    if v.op in ('mut', 'mutd') and fget(v.a[0]) == k: continue
                    w = norm(fields[k], E, True) if k in fields else None
                    x = norm(v, E)
                    res.check(x == w, 'RoPE/reset', loc_of(r), 'RoPE: resetParameters leaves %s = %s instead of %s' % (k, sh_(x), sh_(w)), 'RoPE reset')
    return 1


def sample(x, g, asg):
    """the term under an assignment of the constructor arguments and fields"""
    if not isinstance(x, tuple): return x
    if x in asg: return ('c', float(asg[x]))
    if x and x[0] == 'if':
        k = num(sample(x[1], g, asg))
        if k is None: return x
        return sample(x[2 if k else 3], g, asg)
    y = tuple(sample(y, g, asg) for y in x)
    if y and y[0] in FOLD:
        k = num(y)
        if k is not None: return ('c', k)
    return y


FOLD = ('not', '==', '!=', '<', '<=', 'and', 'or', '+', '-', '*', 'neg')


def num(c):
    if not isinstance(c, tuple): return None
    if c[0] == 'c': return c[1]
    a = [num(y) for y in c[1:]]
    if c[0] == 'and' and any(y == 0 for y in a if y is not None): return 0.0
    if c[0] == 'or' and any(y for y in a if y is not None): return 1.0
    if None in a or not a: return None
    f = {'not': lambda x: not x, '==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, 'and': lambda *z: all(z), 'or': lambda *z: any(z),
         '+': lambda *z: sum(z), '-': lambda x, y: x - y, '*': lambda *z: math.prod(z), 'neg': lambda x: -x}.get(c[0])
    return float(f(*a)) if f else None


def atoms(c, out):
    """the constructor arguments and fields a condition reads; None: reads something else"""
    if not isinstance(c, tuple) or c[0] == 'c': return True
    if c[0] in ('p', 'field'): return out.add(c) or True
    if c[0] in ('not', '==', '!=', '<', '<=', 'and', 'or', '+', '-', '*', 'neg', 'if'): return all(atoms(y, out) for y in c[1:])
    return False


def conds(x, out):
    if not isinstance(x, tuple): return
    if x and x[0] == 'if': out.append(x[1])
    elif x and x[0] in FOLD and atoms(x, set()):
        out.append(x)
        return
    for y in x: conds(y, out)


def forwards(P, rec, E, res, cls, wf, ctor, tname):
    """(what forward computes, what it should): once when no condition is left, per sampled constructor arguments otherwise"""
    I = Interp(P, policy())
    rets = [(st, t) for st, t, *_ in I.run(rec) if t is not None]
    res.fn(rec)
    paths = []
    for st, t in rets:
        cs = [(norm(c, E), p) for c, p in st.gl if c.op != 'inrange']
        ks = [(truth_(c, E), p) for c, p in cs]
        if any(k is not None and k != p for k, p in ks): continue
        paths.append(([(c, p) for (c, p), (k, _) in zip(cs, ks) if k is None], norm(t, E)))
    if not paths: raise Unk('no result of ' + rec['fn'])
    every = []
    for cs, x in paths:
        every += [c for c, _ in cs]
        conds(x, every)
    if not every:
        for _, x in paths: yield x, wf
        return
    at = set()
    for c in every:
        if not atoms(c, at): raise Unk('condition %s' % sh_(c)[:80])
    at = sorted(at)
    vals = []
    for a in at:
        ty = ctor['ps'][a[1]]['t'] if a[0] == 'p' and ctor and a[1] < len(ctor['ps']) else None
        if a == ('field', tname): vals.append((0, 1))
        elif ty in ('float', 'double'): vals.append((0, 0.25, 0.75, 1))
        elif ty in ('int', 'int64_t', 'long'): vals.append((-2, -1, 0, 1, 2) if cls in ('Softmax', 'LogSoftmax', 'Flatten') else (1, 2, 3))
        else: raise Unk('condition on %s' % sh_(a))
    for vs in itertools.islice(itertools.product(*vals), 400):
        asg = dict(zip(at, vs))
        n = 0
        for cs, x in paths:
            ks = [num(sample(c, None, asg)) for c, _ in cs]
            if None in ks: raise Unk('condition of ' + rec['fn'])
            if any(bool(k) != p for k, (_, p) in zip(ks, cs)): continue
            n += 1
            yield sample(x, None, asg), sample(wf, None, asg)
        if not n: raise Unk('no result of ' + rec['fn'])


def sameout(x, w):
    def drop(y):        # dropping nothing, or outside training, is the identity
        if isinstance(y, tuple) and y and y[0] == 'call' and y[1] == 'function::dropout' and len(y) == 5 and (y[3] == ('c', 0.0) or y[4] == ('c', 0.0)): return y[2]
        return y
    return x == w or drop(x) == drop(w)


def returns(P, rec, E, res):
    I = Interp(P, policy())
    rets = I.run(rec)
    res.fn(rec)
    out = []
    for st, t, *_ in rets:
        if t is None or not holds(st.gl, E): continue
        out.append(norm(t, E))
    if not out: raise Unk('no result of ' + rec['fn'])
    return out


def pairs(x):
    """{name: tensor} of a listed vector of pairs"""
    if x[0] == 'new' and x[1] == 'vector':
        if len(x) == 2: return {}
        x = x[2]
    if x[0] == 'new' and x[1] == 'initializer_list' and len(x) > 2: x = x[2]
    if x[0] in ('app',):
        d = pairs(x[1])
        e = x[2:]
        if d is None: return None
        if len(e) == 1 and e[0][0] == 'new': e = e[0][2:]
        if len(e) != 2 or e[0][0] != 's': return None
        return {**d, e[0][1]: e[1]}
    if x[0] != 'list': return None
    d = {}
    for p in x[1:]:
        if p[0] == 'new': p = ('list',) + p[2:]
        if p[0] != 'list' or len(p) != 3 or p[1][0] != 's' or p[1][1] in d: return None
        d[p[1][1]] = p[2]
    return d


# ---- initial values

def U(b): return ('fillUniform_', -b, b)


def kaiming(s, a=math.sqrt(5)): return math.sqrt(3) * math.sqrt(2 / (1 + a * a)) / math.sqrt(math.prod(s[1:]))


INIT = {
    'Linear': lambda s: {'weight': U(kaiming(s['weight'])), 'bias': U(1 / math.sqrt(math.prod(s['weight'][1:])))},
    'Conv2D': lambda s: {'weight': U(kaiming(s['weight'])), 'bias': U(1 / math.sqrt(math.prod(s['weight'][1:])))},
    'Embedding': lambda s: {'weight': ('fillNormal_', 0, 1)},
    'LayerNorm': lambda s: {'weight': ('fill', 1), 'bias': ('fill', 0)},
    'RMSNorm': lambda s: {'weight': ('fill', 1)},
}
SHAPES = {'Linear': [{'weight': [4, 3], 'bias': [4]}, {'weight': [1, 7], 'bias': [1]}], 'Conv2D': [{'weight': [4, 3, 2, 5], 'bias': [4]}, {'weight': [1, 2, 3, 3], 'bias': [1]}],
          'Embedding': [{'weight': [5, 2]}], 'LayerNorm': [{'weight': [6], 'bias': [6]}], 'RMSNorm': [{'weight': [6]}]}


def fill_of(K, m, e):
    f = e.fn.split('::')[-1]
    a = [float(m.v(K.res(x, ()))) for x in e.args]
    return {'fillZero_': ('fill', 0.0), 'fillOne_': ('fill', 1.0)}.get(f) or (('fill',) + tuple(a) if f == 'fill_' else (f,) + tuple(a))


def reset(res, P, cls):
    r = P.by_name.get(N + cls + '::resetParameters')
    names = P.by_name.get(N + cls + '::namedParameters_')
    if not r or not names: return 0
    K = Kern(P, r[0], live=True)
    res.fn(r[0])
    I = Interp(P, policy())
    # the fields behind the names, and the flag of the bias
    where = {}
    for st, t, *_ in I.run(names[0]):
        d = rawpairs(t)
        if d is None: raise Unk(names[0]['fn'])
        for k, f in d.items(): where[f] = k
    flagf = {fget(c if c.op != 'not' else c.a[0]) for st, t, *_ in I.run(names[0]) for c in [g for g, p in st.gl] + [x.a[0] for x in subterms(t) if x.op == 'phi']} - {None}
    fills = [e for e in K.I.evs if e.kind == 'call' and e.fn.startswith('tinytorch::Tensor::fill')]
    for shapes in SHAPES[cls]:
        for bias in (True, False):
            if 'bias' not in shapes and not bias: continue
            m = TModel(K, {}, {}, 1)
            m.intb = {}
            for f, k in where.items():
                for t in (mk('fld', mk('deref', THIS), f), mk('F', mk('D', THIS), f)): m.shapes[K.root(t)] = shapes[k]
            for f in flagf:
                for t in (mk('fld', mk('deref', THIS), f), mk('F', mk('D', THIS), f)): m.params[t] = bias
            fin = {}
            for e in fills:
                if not all(istrue(m, K.res(c, ()), p) for c, p in e.gl): continue
                f = fget(e.obj) or fget(e.objloc)
                if f is None or e.loops: raise Unk('%s fills %s' % (cls, show(e.obj)[:60]))
                fin[where.get(f, f)] = fill_of(K, m, e)
            want = INIT[cls](shapes)
            if not bias: want.pop('bias', None)
            for k, w in want.items():
                g = fin.get(k)
                ok = g is not None and g[0] == w[0] and len(g) == len(w) and all(abs(a - b) <= 1e-5 * max(1, abs(b)) for a, b in zip(g[1:], w[1:]))
                res.check(ok, '%s/init/%s' % (cls, k), loc_of(r[0]), '%s%s: %s of shape %s is initialised by %s instead of %s' % (cls, '' if bias else ' without bias', k, shapes[k], fmt_(g), fmt_(w)),
                          '%s: %s starts as %s' % (cls, k, fmt_(w)))
            for k in fin:
                if k not in want: res.check(False, '%s/init/%s' % (cls, k), loc_of(r[0]), '%s without bias: resetParameters fills the absent %s' % (cls, k))
    return 1


def fmt_(g):
    if g is None: return 'nothing'
    return '%s(%s)' % (g[0].rstrip('_'), ', '.join('%.4g' % x for x in g[1:]))


def rawpairs(t):
    if t is None: return None
    if t.op == 'phi':
        a, b = rawpairs(t.a[1]), rawpairs(t.a[2])
        return None if a is None or b is None else {**a, **b}
    if t.op == 'app':
        d = rawpairs(t.a[0])
        x = t.a[1:]
        if d is None: return None
    elif t.op == 'new' and t.a[0].startswith('std::vector'):
        if not t.a[1]: return {}
        t = t.a[1][0]
        d, x = {}, None
    if t.op == 'new' and t.a[0].startswith('std::initializer_list'): t = t.a[1][0]
    if t.op == 'list': x = t.a[0]
    elif t.op != 'app': return None
    for p in x:
        if p.op == 'new' and len(p.a[1]) == 2: p = p.a[1]
        elif p.op == 'list': p = p.a[0]
        else: return None
        if len(p) != 2 or p[1].op not in ('addr', 'addrof'): return None
        s = p[0]
        while s.op == 'new' and s.a[1]: s = s.a[1][0]
        f = fget(p[1].a[0])
        if s.op != 'str' or f is None: return None
        d[s.a[0]] = f
    return d


class EModel(TModel):
    def v(self, t): return t.a[1] if t.op == 'enum' else TModel.v(self, t)


def initializer(res, P):
    r = P.by_name.get(N + 'Initializer::kaimingUniform')
    if not r: return
    K = Kern(P, r[0], live=True)
    res.fn(r[0])
    t, a, mode = K.ps
    fills = [e for e in K.I.evs if e.kind == 'call' and e.fn.startswith('tinytorch::Tensor::fill')]
    for s in ([4, 3], [2, 5, 3, 2], [7, 1, 2], [3, 4, 2, 2, 2]):
        for av in (0.0, 1.0, 2.25):
            for md in (0, 1):
                m = EModel(K, {t: s}, {a: av, mode: md}, 1)
                m.intb = {}
                act = [e for e in fills if all(istrue(m, K.res(c, ()), p) for c, p in e.gl)]
                if any(K.root(e.obj) is not t for e in act): raise Unk('kaimingUniform fills another tensor')
                g = fill_of(K, m, act[-1]) if act else None
                fan = (s[1] if md == 0 else s[0]) * math.prod(s[2:])
                b = math.sqrt(3) * math.sqrt(2 / (1 + av * av)) / math.sqrt(fan)
                w = U(b)
                ok = g is not None and g[0] == w[0] and all(abs(x - y) <= 1e-5 * max(1, abs(y)) for x, y in zip(g[1:], w[1:]))
                res.check(ok, 'Initializer/kaimingUniform', loc_of(r[0]), 'kaimingUniform of shape %s with a=%g and fan %s uses %s instead of %s' % (s, av, ('in', 'out')[md], fmt_(g), fmt_(w)), 'kaimingUniform bounds')
    for nm, f, args in (('zeros', 'fill', [0]), ('ones', 'fill', [1]), ('normal', 'fillNormal_', [1, 2]), ('uniform', 'fillUniform_', [1, 2])):
        r = P.by_name.get(N + 'Initializer::' + nm)
        if not r: continue
        K = Kern(P, r[0], live=True)
        m = TModel(K, {K.ps[0]: [3]}, {p: .5 + i for i, p in enumerate(K.ps[1:])}, 1)
        m.intb = {}
        es = [e for e in K.I.evs if e.kind == 'call' and e.fn.startswith('tinytorch::Tensor::fill')]
        if not es or any(e.gl or K.root(e.obj) is not K.ps[0] for e in es): raise Unk(nm)
        w = ('fill', float(args[0])) if f == 'fill' else (f,) + tuple(.5 + i for i in range(2))
        g = fill_of(K, m, es[-1])
        res.check(g == w, 'Initializer/' + nm, loc_of(r[0]), 'Initializer::%s fills with %s' % (nm, fmt_(g)), 'Initializer::' + nm)


# ---- walks over the module tree

def guards(I, e):
    """the conditions an event is under, those of (left) loops aside"""
    cs = [o['cond'] for o in I.loopinfo.values() if o.get('cond') is not None]
    return [g for g, p in e.gl if g.op != 'inrange' and not any(g is c or g in (c.a if c.op in ('not', 'and') else ()) for c in cs)]


class Visit:
    """event inside one loop over a whole container"""
    def __init__(self, I, e):
        self.e = e
        self.cont = self.idx = None
        if len(e.loops) != 1: raise Unk('event in %d loops' % len(e.loops))
        lid = e.loops[0]
        info = I.loopinfo[lid]
        c = info['cond']
        if c.op == 'inrange':
            self.cont, self.idx = info['range'], c.a[0]
        elif c.op == '<' and c.a[0].op == 'hav':
            h = c.a[0]
            b = c.a[1]
            while b.op in ('cast', 'icast', 'toint'): b = b.a[-1] if isinstance(b.a[-1], T) else b.a[0]
            if b.op == 'call' and b.a[1] is not None and b.a[0].split('::')[-1] == 'size' and cval(info['init'].get(h.a[2])) == 0 and info['next'].get(h.a[2]) is binop('+', h, C(1)):
                self.cont, self.idx = b.a[1], h
        elif c.op == 'call' and c.a[0].split('::')[-1] in ('operator!=', 'operator<') and len(c.a[2]) == 2:       # iterators
            h, z = (bare(x) for x in c.a[2])
            i0 = info['init'].get(h.a[2]) if h.op == 'hav' and h.a[0] == lid else None
            if i0 is not None and bare(i0).op == 'call' and bare(i0).a[0].split('::')[-1] in ('begin', 'cbegin') and z.op == 'call' and z.a[0].split('::')[-1] in ('end', 'cend') \
                    and ident(z.a[1]) == ident(bare(i0).a[1]):
                step = [x for x in I.evs if x.kind in ('call', 'write') and lid in x.loops and x.objloc is not None and x.objloc is h.a[2]]
                if len(step) == 1 and step[0].fn.split('::')[-1] == 'operator++' and not [g for g, p in step[0].gl if g is not c]:
                    self.cont, self.idx = bare(i0).a[1], h
        if self.cont is None: raise Unk('loop %s' % show(c)[:60])
        self.cont = bare(self.cont)
        self.rloc = info.get('rangeloc')
        fid = min((x.fid for x in I.evs if lid in x.loops), default=None)      # the frame the loop is in
        self.whole = not info.get('brks') and not any(x.kind == 'return' and lid in x.loops and x.fid == fid for x in I.evs)
        self.extra = [g for g in guards(I, e) if not emptiness(g, self.cont)]

    def elem(self, t):
        """path of a term inside the visited element: ('first',), ('second',), () or None"""
        path = []
        while True:
            t = bare(t)
            if t.op == 'hav' and t is self.idx: return tuple(path)
            if t.op in ('fld', 'F'):
                path.insert(0, t.a[1])
                t = t.a[0]
            elif t.op in ('deref', 'D', 'addr', 'addrof') : t = t.a[0]
            elif t.op == 'call' and t.a[1] is not None and t.a[0].split('::')[-1] in ('get', 'operator*', 'operator->', 'operator tinytorch::nn::Module &'): t = t.a[1]
            elif t.op in ('hav',) and len(t.a) > 2 and isinstance(t.a[2], T) and t.a[2].op in ('D', 'E', 'F'): t = t.a[2]
            elif t.op in ('elem', 'E', 'idx'):
                return tuple(path) if (same(t.a[0], self.cont) or self.rloc is not None and ident(t.a[0]) == ident_loc(self.rloc)) and bare(t.a[1]) is self.idx else None
            else: return None


def bare(t):
    while t.op in ('mut', 'mutd', 'cast', 'icast'): t = t.a[-1] if t.op in ('cast', 'icast') and isinstance(t.a[-1], T) else t.a[0]
    return t


def ident(t):
    """container named by a term, irrespective of when it is read"""
    t = bare(t)
    f = fget(t)
    if f is not None: return ('field', f)
    if t.op == 'hav' and isinstance(t.a[2], T): return ident_loc(t.a[2])
    return ('t', t)


def ident_loc(l):
    f = fget(l)
    if f is not None: return ('field', f)
    return ('l', l)


def same(a, b):
    x, y = ident(a), ident(b)
    return x == y or bare(a) is bare(b) or y[0] == 'l' and x[0] == 't' and x[1] is y[1]


def emptiness(g, cont):
    if g.op == 'not': g = g.a[0]
    for x in subterms(g):
        if x.op == 'call' and x.a[1] is not None and x.a[0].split('::')[-1] in ('empty', 'size') and same(x.a[1], cont): return True
    return False


def subfield(P):
    """the field that holds the registered submodules"""
    r = P.by_name[N + 'Module::registerModule'][0]
    I = Interp(P, policy())
    I.run(r)
    for e in I.evs:
        if e.kind == 'call' and e.fn.split('::')[-1] in ('emplace_back', 'push_back', 'insert') and e.objloc is not None:
            f = fget(e.objloc)
            if f: return f
    return None


def walk_rule(res, P, name, subs, callee, argsok, msg):
    """method calls callee on every registered submodule, unconditionally"""
    r = P.by_name[N + 'Module::' + name][0]
    I = Interp(P, policy())
    I.run(r)
    res.fn(r)
    cs = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('Module::' + callee) and e.loops]
    if not cs:
        if any(e.kind == 'lambda' or e.kind == 'call' and e.fn.startswith('std::') and e.fn.split('::')[-1] in ('for_each', 'accumulate', 'transform') for e in I.evs): raise Unk(name + ' walks by other means')
        return res.check(False, name, loc_of(r), 'Module::%s does not reach the submodules' % name)
    for e in cs:
        v = Visit(I, e)
        if e.obj is None: raise Unk(name)
        p = v.elem(e.objloc) if e.objloc is not None else None
        if p is None: p = v.elem(e.obj)
        if p is None: raise Unk('%s: object %s' % (name, show(e.obj)[:60]))
        ok = ident(v.cont) == ('field', subs) and v.whole and not v.extra and argsok(I, r, e, v)
        res.check(ok, name, evloc(e), msg, 'Module::%s reaches every submodule' % name)


def listing(res, P, name, subs):
    """own entries under prefix + name, those of every submodule under prefix + its name + '.'"""
    own, kind = name + '_', name
    r = P.by_name[N + 'Module::' + name][0]
    I = Interp(P, policy())
    I.run(r)
    res.fn(r)
    pre = mk('param', 0, r['ps'][0]['n'])
    E = Env({}, {})
    adds = [e for e in I.evs if e.kind == 'call' and e.fn.startswith('std::vector') and e.fn.split('::')[-1] in ('emplace_back', 'push_back', 'insert') and e.loops]
    got = {'own': [], 'sub': []}
    for e in adds:
        outer = e
        if len(e.loops) == 2:       # element by element over the submodule's list
            raise Unk('nested loops')
        v = Visit(I, e)
        c = v.cont
        if ident(c) == ('field', subs): got['sub'].append((e, v))
        elif any(x.op == 'call' and x.a[0].endswith('Module::' + own) for x in subterms(c)) or listed(I, c, own): got['own'].append((e, v))
        elif any(x.op == 'call' and x.a[0].split('::')[-1].startswith('named') for x in subterms(c)): got['own'].append((e, v))
        else: raise Unk('%s loops over %s' % (name, show(c)[:60]))
    for k in ('own', 'sub'):
        if not got[k]:
            if [e for e in I.evs if e.kind == 'call' and e.fn.startswith('std::vector') and e.fn.split('::')[-1] == 'insert' and not e.loops]: raise Unk(name)
            res.check(False, '%s/%s' % (name, k), loc_of(r), '%s does not list %s' % (name, 'the entries of the module itself' if k == 'own' else 'the entries of the submodules'))
    for e, v in got['own']:
        nm, val = entry(e)
        ok = listed(I, v.cont, own) and v.whole and not v.extra
        c = catof(nm, v, pre)
        if c is None or val is None: raise Unk('%s: entry %s' % (name, show(nm)[:80] if nm is not None else ''))
        res.check(ok and c == ['prefix', 'name'] and v.elem(val) == ('second',), name + '/own', evloc(e), '%s does not list every entry of %s under prefix + name' % (name, own), '%s: own entries' % name)
    for e, v in got['sub']:
        calls = [x for x in I.evs if x.kind == 'call' and x.fn.split('::')[-1].startswith('named') and x.loops == e.loops]
        if e.fn.split('::')[-1] != 'insert' or len(calls) != 1: raise Unk(name)
        x = calls[0]
        p = v.elem(x.objloc) if x.objloc is not None else None
        c = catof(x.args[0], v, pre) if x.args else None
        if p is None or c is None: raise Unk('%s: submodule call %s' % (name, show(x.obj)[:60]))
        res.check(v.whole and not v.extra and x.fn.endswith('Module::' + kind) and c == ['prefix', 'name', '.'] and p == ('second',), name + '/sub', evloc(x),
                  '%s does not list every submodule\'s %s under prefix + name + "."' % (name, kind), '%s: submodules' % name)


def listed(I, c, own):
    """is the container the result of this->own()"""
    if c.op == 'call' and c.a[0].endswith('Module::' + own): return True
    i = ident(c)
    if i[0] != 'l': return False
    for x in I.evs:
        if x.kind in ('decl', 'init', 'write', 'refdecl') and x.objloc is i[1] and x.args: return any(y.op == 'call' and y.a[0].endswith('Module::' + own) for y in subterms(x.args[0]))
    if i[1].op == 'V' and str(i[1].a[2]).startswith('tmp'): return any(x.kind == 'call' and x.fn.endswith('Module::' + own) for x in I.evs) and not any(x.kind == 'call' and x.fn.split('::')[-1] in ('namedStates_', 'namedParameters_') and not x.fn.endswith(own) for x in I.evs)
    return False


def entry(e):
    a = e.args
    if len(a) == 1:
        a = a[0]
        while a.op in ('mut', 'mutd'): a = a.a[0]
        a = a.a[1] if a.op == 'new' else a.a[0] if a.op == 'list' else ()
        if len(a) == 1 and a[0].op == 'list': a = a[0].a[0]
    return (a[0], a[1]) if len(a) == 2 else (None, None)


def catof(t, v, pre):
    if t is None: return None
    t = bare(t)
    if t.op == 'call' and t.a[0] == 'std::operator+': 
        a, b = [catof(x, v, pre) for x in t.a[2]]
        return None if a is None or b is None else a + b
    if t.op == 'new' and STR.match(t.a[0]) and t.a[1]: return catof(t.a[1][0], v, pre)
    if t.op == 'call' and t.a[0] in ('std::move', 'std::forward') and len(t.a[2]) == 1: return catof(t.a[2][0], v, pre)
    if t is pre: return ['prefix']
    c = t.a[0] if t.op == 'str' else chr(t.a[0]) if t.op == 'c' and isinstance(t.a[0], int) and 0 < t.a[0] < 128 else None
    if t.op == 'chr': c = t.a[0] if isinstance(t.a[0], str) else chr(t.a[0])
    if c is not None: return [c] if c else []
    p = v.elem(t)
    if p == ('first',): return ['name']
    if p == ('second',): return ['value']
    return None


def tree(res, P, subs):
    def mode(I, r, e, v): return len(e.args) == 1 and e.args[0] is mk('param', 0, r['ps'][0]['n'])
    with res.instance('training mode'):
        walk_rule(res, P, 'setTraining', subs, 'setTraining', mode, 'setTraining does not hand the mode to every submodule')
        r = P.by_name[N + 'Module::setTraining'][0]
        I = Interp(P, policy())
        I.run(r)
        w = [e for e in I.evs if e.kind == 'write' and fget(e.objloc) and not guards(I, e) and e.args[0] is mk('param', 0, r['ps'][0]['n'])]
        res.check(bool(w), 'setTraining/own', loc_of(r), 'setTraining does not record the mode in the module', 'the module records its mode')
        for nm, want in (('train', None), ('eval', 0)):
            r = P.by_name[N + 'Module::' + nm][0]
            I = Interp(P, policy())
            I.run(r)
            res.fn(r)
            cs = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('Module::setTraining')]
            ok = len(cs) >= 1 and not guards(I, cs[-1]) and (cs[-1].args[0] is mk('param', 0, r['ps'][0]['n']) if want is None else cval(cs[-1].args[0]) == want)
            res.check(ok, nm, loc_of(r), '%s() does not set the training mode to %s' % (nm, 'its argument' if want is None else 'false'), nm + '()')
    with res.instance('reset'):
        walk_rule(res, P, 'resetParameters', subs, 'resetParameters', lambda *a: True, 'resetParameters does not reach every submodule')
        r = P.by_name[N + 'Module::initParameters'][0]
        I = Interp(P, policy())
        I.run(r)
        res.fn(r)
        res.check(any(e.kind == 'call' and e.fn.endswith('Module::resetParameters') and not guards(I, e) and not e.loops for e in I.evs), 'initParameters', loc_of(r), 'initParameters does not reset the parameters', 'initParameters')
    for nm in ('namedParameters', 'namedStates'):
        with res.instance(nm): listing(res, P, nm, subs)
    with res.instance('namedStates_'):
        r = P.by_name[N + 'Module::namedStates_'][0]
        for x in returns(P, r, Env({}, {}), res):
            res.check(x[:2] == ('call', 'nn::Module::namedParameters_'), 'namedStates_', loc_of(r), 'the default states of a module are not its parameters', 'states include the parameters by default')
    for nm, src in (('parameters', 'namedParameters'), ('states', 'namedStates')):
        with res.instance(nm):
            r = P.by_name[N + 'Module::' + nm][0]
            I = Interp(P, Policy(opaque=lambda x: x is not r and (x['fn'] in TREE or x['fn'].startswith(OPQ))))
            I.run(r)
            res.fn(r)
            es = [e for e in I.evs if e.kind == 'call' and e.fn.startswith('std::vector') and e.fn.split('::')[-1] in ('emplace_back', 'push_back') and e.loops]
            if len(es) != 1: raise Unk(nm)
            v = Visit(I, es[0])
            if not srcof(I, v.cont): raise Unk(nm)
            res.check(srcof(I, v.cont) == src and v.whole and not v.extra and v.elem(es[0].args[0]) == ('second',), nm, evloc(es[0]), '%s() does not give every tensor of %s()' % (nm, src), nm + '()')
    with res.instance('zeroGrad'):
        r = P.by_name[N + 'Module::zeroGrad'][0]
        I = Interp(P, policy())
        I.run(r)
        res.fn(r)
        es = [e for e in I.evs if e.kind == 'call' and e.fn in ('tinytorch::Tensor::zeroGrad', N + 'Module::zeroGrad')]
        if not es: res.check(not plain(I), 'zeroGrad', loc_of(r), 'zeroGrad clears no gradient')
        for e in es:
            v = Visit(I, e)
            s = srcof(I, v.cont)
            p = v.elem(e.objloc) if e.objloc is not None else v.elem(e.obj)
            if s not in ('namedParameters', 'parameters', 'namedStates', 'states') or p is None: raise Unk('zeroGrad')
            extra = [g for g in v.extra if 'requiresGrad' not in show(g) and 'gradMeta' not in show(g) and 'defined' not in show(g)]
            res.check(v.whole and not extra and p == (('second',) if s.startswith('named') else ()), 'zeroGrad', evloc(e), 'zeroGrad does not clear the gradient of every parameter', 'zeroGrad clears every parameter')
    for r in P.by_name[N + 'Module::to']:
        with res.instance('to'):
            I = Interp(P, policy())
            I.run(r)
            res.fn(r)
            ws = [e for e in I.evs if e.kind == 'write' and e.loops and e.args and any(x.op == 'call' and x.a[0].startswith('tinytorch::Tensor::to') for x in subterms(e.args[0]))]
            ps = [mk('param', i, q['n']) for i, q in enumerate(r['ps'])]
            if not ws:
                if any(e.kind == 'call' and e.fn.endswith('Module::to') for e in I.evs): continue
                raise Unk('to')
            for e in ws:
                v = Visit(I, e)
                s = srcof(I, v.cont)
                t = e.args[0]
                while t.op in ('mut', 'mutd'): t = t.a[0]
                if t.op != 'call' or s is None: raise Unk('to')
                ok = s in ('namedStates', 'states') and v.whole and not v.extra and list(t.a[2]) == ps and v.elem(t.a[1]) == v.elem(e.objloc) == (('second',) if s.startswith('named') else ())
                res.check(ok, 'to', evloc(e), 'to() does not convert every parameter and state to what was asked for', 'to() converts every state')


def plain(I): return any(e.kind == 'lambda' for e in I.evs)


def srcof(I, c):
    """which listing of this module a container is"""
    for x in subterms(c):
        if x.op == 'call' and x.a[0].startswith(N + 'Module::') and bare(x.a[1]).op in ('D', 'deref', 'this', 'hav', 'rec'): return x.a[0].split('::')[-1]
    i = ident(c)
    if i[0] == 'l':
        for x in I.evs:
            if x.kind == 'decl' and x.objloc is i[1] and x.args: return srcof(I, x.args[0]) if ident(x.args[0]) != i else None
        if i[1].op == 'V' and str(i[1].a[2]).startswith('tmp'):
            cs = {x.fn.split('::')[-1] for x in I.evs if x.kind == 'call' and x.fn in TREE}
            if len(cs) == 1: return cs.pop()
    return None


def registration(res, P, subs):
    with res.instance('registerModule'):
        r = P.by_name[N + 'Module::registerModule'][0]
        I = Interp(P, policy())
        I.run(r)
        res.fn(r)
        es = [e for e in I.evs if e.kind == 'call' and e.objloc is not None and fget(e.objloc) == subs and e.fn.split('::')[-1] in ('emplace_back', 'push_back')]
        ps = [mk('param', i, q['n']) for i, q in enumerate(r['ps'])]
        a = [entry_any(e) for e in es]
        res.check(len(es) == 1 and not guards(I, es[0]) and [bare(x) for x in a[0]] == ps, 'registerModule', loc_of(r), 'registerModule does not record the submodule under its name', 'registerModule records the submodule')
    with res.instance('registerModules'):
        r = P.by_name[N + 'Module::registerModules'][0]
        I = Interp(P, policy())
        I.run(r)
        res.fn(r)
        es = [e for e in I.evs if e.kind == 'call' and e.objloc is not None and fget(e.objloc) == subs and e.fn.split('::')[-1] in ('emplace_back', 'push_back')]
        if len(es) != 1: raise Unk('registerModules')
        v = Visit(I, es[0])
        a = [v.elem(x) for x in es[0].args]
        if a == [None]: a = [v.elem(x) for x in entry_any(es[0])]
        if None in a: raise Unk('registerModules')
        ok = bare(v.cont) is mk('param', 0, r['ps'][0]['n']) and v.whole and not v.extra and a in ([()], [('first',), ('second',)])
        res.check(ok, 'registerModules', evloc(es[0]), 'registerModules does not record every submodule under its name', 'registerModules records every submodule')
    for rec in [r for nm in ('pushBack', 'emplaceBack') for r in P.by_name.get(N + 'ModuleList::' + nm, [])]:
        with res.instance(rec['fn']):
            I = Interp(P, policy())
            I.run(rec)
            res.fn(rec)
            es = [e for e in I.evs if e.kind == 'call' and e.objloc is not None and fget(e.objloc) and e.fn.startswith('std::vector') and e.fn.split('::')[-1] in ('emplace_back', 'push_back')]
            reg, own = [e for e in es if fget(e.objloc) == subs], [e for e in es if fget(e.objloc) != subs]
            if len(reg) > 1 or len(own) > 1: raise Unk(rec['fn'])
            k = rec['fn'].split('::')[-1]
            if not res.check(len(reg) == 1 and len(own) == 1 and not guards(I, reg[0]) and not guards(I, own[0]), k, loc_of(rec), '%s does not both keep and register the module' % k): continue
            a = entry_any(reg[0])
            m = own[0].args[0]
            lf = ('field', fget(own[0].objloc))
            bad_ = None
            for n in list(range(13)) + [100]:
                # the length of either list when pushBack starts is n
                x = text(a[0], lambda l: n + sum(1 for y in subterms(l) if y.op == 'app') if ident(base_(l)) in (lf, ('field', subs)) else None)
                if x is None: raise Unk('%s: name %s' % (k, show(a[0])[:60]))
                if x != str(n) and bad_ is None: bad_ = (n, x)
            tgt = a[1]
            while True:
                if tgt.op == 'new': tgt = tgt.a[1][0]
                elif tgt.op in ('deref', 'D', 'mut'): tgt = tgt.a[0]
                elif tgt.op in ('elem', 'E', 'idx') and tgt.a[1].op == 'last' and bare(tgt.a[0]).op == 'app': tgt = bare(tgt.a[0]).a[1]
                else: break
            res.check(bad_ is None, k + '/name', evloc(reg[0]), '%s registers the module of index %s as "%s"' % ((k,) + (bad_ or ('', ''))), '%s names the module by its index' % k)
            res.check(tgt is bare(m) or tgt.op == 'newp' and bare(m).op == 'newp' and tgt.a[1] == bare(m).a[1] or show(tgt) == show(bare(m)), k + '/module', evloc(reg[0]), '%s registers another module than it keeps' % k, '%s registers the module it keeps' % k)
    for rec in P.by_name.get(N + 'ModuleList::ModuleList', []):
        if not rec['ps']: continue
        with res.instance('ModuleList'):
            I = Interp(P, policy())
            I.run(rec)
            res.fn(rec)
            es = [e for e in I.evs if e.kind == 'call' and e.objloc is not None and fget(e.objloc) and e.fn.startswith('std::vector') and e.fn.split('::')[-1] in ('emplace_back', 'push_back')]
            reg, own = [e for e in es if fget(e.objloc) == subs], [e for e in es if fget(e.objloc) != subs]
            if len(reg) > 1 or len(own) > 1: raise Unk('ModuleList')
            if not res.check(len(reg) == 1 and len(own) == 1, 'ModuleList', loc_of(rec), 'the constructor of ModuleList does not both keep and register every module'): continue
            v, w = Visit(I, reg[0]), Visit(I, own[0])
            a = entry_any(reg[0])
            ok = v.whole and w.whole and not v.extra and not w.extra and bare(v.cont) is mk('param', 0, rec['ps'][0]['n']) and bare(w.cont) is mk('param', 0, rec['ps'][0]['n'])
            q = a[1]
            while q.op == 'new': q = q.a[1][0]
            if v.elem(q) is None or w.elem(own[0].args[0]) is None: raise Unk('ModuleList')
            res.check(ok and v.elem(q) == () and w.elem(own[0].args[0]) == (), 'ModuleList', evloc(reg[0]), 'the constructor of ModuleList does not keep and register every module', 'ModuleList keeps and registers every module')
            nm = a[0]
            if nm.op == 'call' and nm.a[0] == 'std::to_string':
                h_ = bare(nm.a[2][0])
                if h_.op == 'hav' and h_.a[0] in I.loopinfo and h_ is not v.idx:
                    i = I.loopinfo[h_.a[0]]
                    st = i['next'].get(h_.a[2])
                    res.check(cval(i['init'].get(h_.a[2])) == 0 and st is binop('+', h_, C(1)), 'ModuleList/name', evloc(reg[0]), 'the constructor of ModuleList registers modules under other names than their index', 'named by index')
    for rec in P.by_name.get(N + 'Sequential::forward', []):
        with res.instance('Sequential'):
            I = Interp(P, policy())
            rets = I.run(rec)
            res.fn(rec)
            cs = [e for e in I.evs if e.kind == 'call' and e.fn in (N + 'Module::forward', N + 'Module::operator()')]
            if len(cs) != 1 or len(rets) != 1: raise Unk('Sequential')
            e = cs[0]
            v = Visit(I, e)
            info = I.loopinfo[e.loops[0]]
            t = bare(rets[0][1])
            if t.op != 'hav' or not e.args: raise Unk('Sequential')
            ini, nx = info['init'].get(t.a[2]), info['next'].get(t.a[2])
            ini = bare(ini)
            while ini.op in ('new', 'list') and ini.op: ini = ini.a[1][0] if ini.op == 'new' and len(ini.a[1]) == 1 else ini.a[0][0] if ini.op == 'list' and len(ini.a[0]) == 1 else mk('none')
            own = [f for f in [ident(v.cont)] if f[0] == 'field']
            p = v.elem(e.objloc) if e.objloc is not None else None
            if not own or p is None: raise Unk('Sequential')
            ok = v.whole and not v.extra and ini is mk('param', 0, rec['ps'][0]['n']) and bare(e.args[0]) is t and nx is not None and bare(nx).op == 'call' and bare(nx).a[0] == e.fn and p in ((), ('second',))
            res.check(ok, 'Sequential', evloc(e), 'Sequential does not apply its modules one after the other', 'Sequential applies its modules in order')


def base_(l):
    while l.op in ('app', 'mut', 'mutd'): l = l.a[0]
    return l


def number(t, size):
    t = bare(t)
    c = cval(t)
    if c is not None: return c
    if t.op == 'call' and t.a[1] is not None and t.a[0].split('::')[-1] == 'size' and not t.a[2]: return size(t.a[1])
    if t.op in ('sz', 'len'): return size(t.a[0])
    if t.op in ('toint', 'cast', 'icast', 'conv', 'wrap'): return number(t.a[-1] if isinstance(t.a[-1], T) else t.a[0], size)
    if t.op in ('+', '-', '*', '/', '%') and len(t.a) == 2:
        x, y = number(t.a[0], size), number(t.a[1], size)
        if x is None or y is None: return None
        if t.op in '/%': return None if y == 0 else (x // y if t.op == '/' else x % y)
        return x + y if t.op == '+' else x - y if t.op == '-' else x * y
    return None


def text(t, size):
    """the string a term denotes, None if unknown"""
    t = bare(t)
    if t.op == 'str': return t.a[0]
    if t.op == 'new' and t.a[0].startswith('std::') and 'basic_string' in t.a[0]:
        a = [x for x in t.a[1] if not (x.op == 'new' and 'allocator' in x.a[0].split('<')[0])]
        if len(a) == 1: return text(a[0], size)
        if len(a) == 2:
            n, ch = number(a[0], size), number(a[1], size)
            if n is not None and ch is not None and 0 <= ch < 256: return chr(int(ch)) * int(n)
        return None
    if t.op == 'call' and t.a[0] == 'std::to_string':
        n = number(t.a[2][0], size)
        return None if n is None else '%d' % n
    if t.op == 'call' and t.a[0] == 'std::operator+' and len(t.a[2]) == 2:
        x, y = text(t.a[2][0], size), text(t.a[2][1], size)
        return None if x is None or y is None else x + y
    return None


def entry_any(e):
    """(name, module) of an inserted pair"""
    a = list(e.args)
    if len(a) == 1:
        x = bare(a[0])
        if x.op == 'new': a = list(x.a[1])
        elif x.op == 'list': a = list(x.a[0])
    return a


def losses(res, P):
    for cls, fn in (('MSELoss', 'mseLoss'), ('NLLLoss', 'nllLoss')):
        with res.instance(cls):
            c = P.by_name.get(N + cls + '::' + cls)
            f = P.by_name.get(N + cls + '::forward')
            if not c or not f: continue
            I = Interp(P, policy())
            rets = I.run(c[0])
            m = rets[0][0].mem.get(mk('D', THIS))
            E = Env(dict(m.a[1]) if m is not None and m.op == 'rec' else {}, {})
            for x in returns(P, f[0], E, res):
                w = F_(fn, ('x', 0), ('x', 1), P_(0))
                res.check(x == w, cls + '/forward', loc_of(f[0]), '%s computes %s instead of %s' % (cls, sh_(x), sh_(w)), '%s is %s' % (cls, sh_(w)))


def check_module(res):
    P = res.p
    res.rule = 'forward in terms of the constructor arguments; listed parameters and their initial values; walks over the module tree reach every submodule'
    n = 0
    t = training_name(P)
    for cls, spec in LAYERS.items():
        with res.instance(cls): n += layer(res, P, cls, spec, t)
    for cls in INIT:
        with res.instance(cls + ' initial values'): n += reset(res, P, cls)
    with res.instance('Initializer'): initializer(res, P)
    losses(res, P)
    subs = subfield(P)
    if subs is not None:
        tree(res, P, subs)
        registration(res, P, subs)
    res.floor('layers', n, 12)
