"""Backward passes: gradient formulas derived symbolically from the forward pass, coverage, guards, context protocol."""
from model import *
from kern import Unk
import alg
from alg import v as atom, mul, div, ng, diff, ite
from c_elem import SPEC, BW, UN

FN = 'tinytorch::function::'
FPRE = ('tinytorch::Tensor::', 'tinytorch::TensorImpl::', 'tinytorch::AutogradContext::', 'tinytorch::IValue::', 'tinytorch::Scalar::', 'tinytorch::options::', 'tinytorch::Options::')
G = mk('atom', 'g')
CTX = mk('deref', mk('param', 0, 'ctx'))
OPSYM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge', '==': 'eq', '!=': 'ne'}
RESHAPES = {'reshape', 'view', 'flatten', 'unflatten', 'squeeze', 'unsqueeze', 'clone', 'contiguous', 'reshapeInplace', 'reshape_', 'detach'}
EXTRA = {'dropoutMasked': (2, div(mul(atom('a'), atom('b')), atom('alpha')))}


class NoForm(Exception):
    pass


def fpolicy():
    return Policy(opaque=lambda rec: rec['fn'].startswith(FPRE) or rec.get('_disp'))


def asop(t):
    """(op name, args) of a call term denoting a tensor operation"""
    if t.op != 'call': return None, ()
    fn, obj, args = t.a[0], t.a[1], t.a[2]
    if fn.startswith(OPNS) and obj is None: return fn[len(OPNS):], args
    if fn.startswith('tinytorch::Tensor::'):
        n = fn.split('::')[-1]
        if obj is None:
            if n in ('scalar', 'onesLike', 'zerosLike', 'ones', 'zeros', 'full', 'fullLike', 'bernoulli', 'arange'): return 'T.' + n, args
            return None, ()
        if n.startswith('operator'):
            n = OPSYM.get(n[8:]) if len(args) == 1 else {'-': 'neg'}.get(n[8:])
            return n, (obj,) + tuple(args)
        if n == 'permute' and not args: n = 'permuteAll'
        return n, (obj,) + tuple(args)
    return None, ()


def scal(t):
    """scalar value of a scalar tensor / Scalar object term"""
    while True:
        if t.op == 'new' and t.a[0] == 'tinytorch::Scalar' and len(t.a[1]) == 1: t = t.a[1][0]
        elif t.op == 'mut': t = t.a[0]
        elif t.op == 'tofloat' and t.a[0].op == 'c': t = t.a[0]
        else: return t


class Form:
    """normal form of tensor-valued terms of one function run"""

    def __init__(self, I, inputs, canon=None):
        self.I = I
        self.inputs = inputs        # term -> in atom
        self.canon = canon or (lambda t: t)
        self.memo = {}
        self.mutators = {}
        for e in I.evs:
            if e.kind != 'call' or not e.sig: continue
            op, args = asop(mk('call', e.fn, e.obj, tuple(e.args), 0))
            if op is None: continue
            if op.endswith('Inplace') or op in ('indexPutAdvance', 'indexPut') or (op.endswith('_') and e.obj is not None):
                if args: self.mutators.setdefault(self.canon(args[0]), []).append((e, op, args))

    def nf(self, t, upto=None):
        t = self.canon(t)
        r = self.nf0(t)
        for e, op, args in self.mutators.get(t, ()):
            if upto is not None and e.seq >= upto.seq: continue
            if upto is not None and not e.guard <= upto.guard and any((x, not p) in upto.guard for x, p in e.guard): continue
            if upto is not None and not e.guard <= upto.guard: r = self.condmut(r, e, op, args, upto); continue
            r = self.applymut(r, e, op, args)
        return r

    def condmut(self, r, e, op, args, upto):
        base = upto.guard if upto else ()
        defd = [l for l in e.gl if l not in base and l[1] and l[0].op == 'call' and l[0].a[0].endswith('::defined')]
        # optional operand: the gradient is asked for when it is present; what is assumed after that test (assertions) holds with it
        if defd and all(l in base or l in defd or e.gl.index(l) > e.gl.index(defd[0]) for l in e.gl): return self.applymut(r, e, op, args)
        extra = [l for l in e.gl if l not in base]
        c = TRUE
        for t, p in extra: c = t_and(c, t if p else neg(t))
        return phi(c, self.applymut(r, e, op, args), r)

    def applymut(self, r, e, op, args):
        if op in ('indexPutAdvance',):
            return mk('iput', r, tuple(self.nf(x, e) for x in self.lst(args[1])), self.nf(args[2], e))
        base = op[:-7] if op.endswith('Inplace') else op[:-1] if op.endswith('_') else op
        if base in RESHAPES: return r
        return self.opform(base, args, r, e)

    def lst(self, t):
        if t.op == 'list': return t.a[0]
        raise NoForm('list %s' % show(t))

    def nf0(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.nf_(t)
            self.memo[t] = r
        return r

    def nf_(self, t):
        if t in self.inputs: return self.inputs[t]
        if t.op == 'mut': return self.nf(t.a[0])
        if t.op == 'phi':
            x, y = self.nf(t.a[1]), self.nf(t.a[2])
            for p, q in ((x, y), (y, x)):
                if p.op == 'sumto' and p.a[0] is q: return p     # reduced only where dimensions were broadcast
            if x is y: return x
            return phi(self.canon(t.a[0]), x, y)
        if t.op == 'new' and t.a[0] == 'tinytorch::Tensor' and len(t.a[1]) == 1: return self.nf(t.a[1][0])
        if t.op == 'fld' and t.a[1] in ('first', 'second'):
            op, args = asop(t.a[0])
            if op: return mk('nth', self.opform(op, args, None, None), t.a[1])
        if t.op == 'elem' and t.a[0].op == 'list': pass
        op, args = asop(t)
        if op is None: raise NoForm(show(t)[:100])
        return self.opform(op, args, None, None)

    def opform(self, op, args, self_nf, ev):
        x = lambda i: self_nf if i == 0 and self_nf is not None else self.nf(args[i], ev)
        if op in RESHAPES: return x(0)
        if op == 'T.scalar': return self.scalar(args[0])
        if op == 'T.onesLike': return C(1)
        if op == 'T.ones': return C(1)
        if op in ('T.zerosLike', 'T.zeros'): return C(0)
        if op == 'T.fullLike' or op == 'T.full': return self.scalar(args[1])
        if op in ('fillMasked', 'fillMasked_'):
            return phi(x(1), self.scalar(args[2]), x(0))
        sp = SPEC.get(op) or EXTRA.get(op)
        if sp or op in BW:
            if sp: n, f = sp; names = ['a', 'b', 'c'][:n]
            else: n, f, names = 3 if len(args) == 3 else 2, BW[op], ['g', 'a', 'b']
            m = {}
            for i, nm in enumerate(names[:min(n, len(args))]): m[atom(nm)] = x(i) if self.tensorish(args[i]) else self.scalar(args[i])
            if len(args) > n: m[atom('alpha')] = self.scalar(args[n])
            elif sp: m[atom('alpha')] = C(1)
            return rewrite(f, lambda y: m.get(y) if y.op == 'atom' else None)
        if op == 'matmul':
            ta = cval(args[2]) if len(args) > 2 else 0
            tb = cval(args[3]) if len(args) > 3 else 0
            if ta is None or tb is None: raise NoForm('matmul flags')
            return mm(tr(x(0)) if ta else x(0), tr(x(1)) if tb else x(1))
        if op in ('transpose2d', 'permuteAll'):
            return tr(x(0)) if x(0).op in ('mm', 'tr') else mk('perm', x(0), 'all')
        if op == 'transpose' and {cval(args[1]), cval(args[2])} in ({-1, -2}, {0, 1}): return tr(x(0))
        if op == 'permute': return mk('perm', x(0), self.canon(args[1]))
        if op == 'sumOnDims': return mk('sumto', x(0), self.canon(args[1]), args[2])
        if op == 'sumOnDim': return mk('sumto', x(0), self.canon(args[1]), args[2])
        if op == 'sum': return mk('sumall', x(0))
        if op == 'im2col': return mk('im2col', x(0), *[self.par(a) for a in args[1:]])
        if op == 'col2im': return mk('col2im', x(0), *[self.par(a) for a in args[1:]])
        if op and (op.startswith('T.') or op[0].islower()):
            return mk('op', op, tuple(self.anyform(a, ev) for a in args))
        raise NoForm(op)

    def tensorish(self, t):
        t = self.canon(t)
        if t in self.inputs or t in self.mutators: return True
        op, _ = asop(t)
        return op is not None or t.op in ('phi', 'fld') or (t.op == 'new' and t.a[0] == 'tinytorch::Tensor')

    def anyform(self, a, ev):
        a = self.canon(a)
        if a.op == 'list': return mk('list', tuple(self.anyform(x, ev) for x in a.a[0]))
        try:
            return self.nf(a, ev)
        except NoForm:
            return self.par(a)

    def scalar(self, t):
        return self.par(scal(self.canon(t)))

    def par(self, t):
        t = scal(self.canon(t))
        return rewrite(t, lambda y: self.inputs.get(y) or (scal(y) if y.op in ('mut', 'new') else None))


def tr(x):
    if x.op == 'tr': return x.a[0]
    if x.op == 'mm': return mk('mm', tuple(tr(f) for f in reversed(x.a[0])))
    return mk('tr', x)


def mm(x, y):
    fx = x.a[0] if x.op == 'mm' else (x,)
    fy = y.a[0] if y.op == 'mm' else (y,)
    return mk('mm', tuple(fx) + tuple(fy))


ARITH = ('+', '-', '*', '/', 'neg', 'phi', 'c', 'and', 'or', 'not', '==', '<', '<=', 'max', 'min', 'tofloat')


def leaves(t, out=None):
    """maximal non-arithmetic subterms of an elementwise expression"""
    if out is None: out = []
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ARITH or alg.stdfn(x): st.extend(children(x))
        elif x not in out: out.append(x)
    return out


def vjp(y, ct, acc):
    """cotangent ct of forward form y -> contributions to the inputs: acc[input atom] = [terms]"""
    if y.op == 'in':
        acc.setdefault(y, []).append(ct)
        return
    if y.op == 'mm':
        fs = y.a[0]
        for i, f in enumerate(fs):
            pre, post = fs[:i], fs[i + 1:]
            c = ct
            if pre: c = mm(tr(mk('mm', pre)), c)
            if post: c = mm(c, tr(mk('mm', post)))
            if f.op == 'tr': vjp(f.a[0], tr(c), acc)
            else: vjp(f, c, acc)
        return
    if y.op == 'tr': return vjp(y.a[0], tr(ct), acc)
    if y.op == 'im2col': return vjp(y.a[0], mk('col2im', ct, mk('shapeof', y.a[0]), *y.a[1:]), acc)
    if y.op == 'sumall': return vjp(y.a[0], ct, acc)
    if y.op == 'perm': return vjp(y.a[0], mk('perm', ct, 'all' if y.a[1] == 'all' else inverse(y.a[1])), acc)
    if y.op == 'op' and y.a[0] in ('softmax', 'logSoftmax') and len(y.a[1]) == 2:
        return vjp(y.a[1][0], mk('op', y.a[0] + 'Backward', (ct, y, y.a[1][1])), acc)
    if y.op == 'op' and y.a[0] in ('mseLoss', 'nllLoss') and len(y.a[1]) == 3:
        return vjp(y.a[1][0], mk('op', y.a[0] + 'Backward', (ct,) + tuple(y.a[1])), acc)
    if y.op == 'nth' and y.a[1] == 'first' and y.a[0].op == 'op' and y.a[0].a[0] in ('maxOnDim', 'minOnDim'):
        return vjp(y.a[0].a[1][0], mk('scatter1', mk('nth', y.a[0], 'second'), ct), acc)
    if y.op in ARITH or alg.stdfn(y):
        ls = leaves(y)
        for l in ls:
            if not any(s.op == 'in' for s in subterms(l)): continue
            m = {x: mk('atom', 'L%d' % x.id) for x in ls}
            back = {b: a for a, b in m.items()}
            e = subst(y, m)
            d = diff(e, m[l])
            d = subst(d, back)
            vjp(l, times(ct, d), acc)
        return
    if y.op == 'op' and y.a[0] in ('T.bernoulli', 'T.arange', 'argmax', 'argmin', 'argmaxOnDim', 'argminOnDim'): return
    raise NoForm('no derivative rule for ' + show(y)[:80])


def times(ct, d):
    try:
        if alg.Conv(lambda t: ('x', t.id) if t.op in ('in', 'atom') else None).conv(d).const() == 1: return ct
    except Exception:
        pass
    return mul(ct, d)


def pairs(P):
    """(class, forward, backward) of the differentiable functions"""
    by = {}
    for r in P.funcs.values():
        if r['n'] in ('forward', 'backward') and r.get('cls', '').startswith(FN) and not r.get('tmpl'):
            by.setdefault(r['cls'], {}).setdefault(r['n'], r)
    return [(c, d['forward'], d['backward']) for c, d in sorted(by.items()) if 'forward' in d and 'backward' in d and d['backward']['ps'][0]['t'].startswith('tinytorch::AutogradContext')]


TENS = 'tinytorch::Tensor'


def check_grad(res):
    P = res.p
    O = Ops(P)
    res.rule = ('for every differentiable function whose backward returns: each input receives exactly the vector-Jacobian product derived symbolically from the forward pass, under a guard on that '
                'input\'s own requiresGrad, on every path; values popped in backward are the ones pushed in forward, in order and with their types')
    nf = ng_ = npop = nadd = 0
    for cls, fw, bw in pairs(P):
        name = cls.split('::')[-1]
        nf += 1
        B = Interp(P, fpolicy())
        brets = B.run(bw)
        if not brets:
            res.counts['not_implemented_backward'] += 1
            continue
        res.fn(fw)
        res.fn(bw)
        F = Interp(P, fpolicy())
        frets = F.run(fw)
        tparams = [i for i, p in enumerate(fw['ps']) if strip_cvref(p['t']) == TENS]
        if any('TensorPair' in p['t'] or 'ArrayView<tinytorch::Tensor' in p['t'] for p in fw['ps']):
            res.und(name + ': list inputs')
            continue
        fin = {mk('param', i, fw['ps'][i]['n']): mk('in', k) for k, i in enumerate(tparams)}
        with res.instance(name):
            one(res, P, name, fw, bw, F, frets, B, brets, fin, tparams)
        ng_ += 1
    kernels(res, P, O)
    res.floor('functions', nf, 45)
    res.floor('implemented', ng_, 12)


def pushes(F):
    out = []
    for e in F.evs:
        if e.kind == 'call' and e.fn == 'tinytorch::AutogradContext::pushData':
            val = e.args[0]
            typ = None
            for c in F.evs:
                if c.kind == 'ctor' and c.fn == 'tinytorch::IValue' and c.ret is val and c.seq < e.seq and c.sig: typ = c.sig['ps'][0]['t'] if c.sig['ps'] else None
            if val.op == 'new' and val.a[0] == 'tinytorch::IValue' and len(val.a[1]) == 1: val = val.a[1][0]
            out.append((e, val, strip_cvref(typ) if typ else None))
    return out


CTXLIT = mk('param', 0, 'ctx')


def one(res, P, name, fw, bw, F, frets, B, brets, fin, tparams):
    ctxp = mk('param', 0, fw['ps'][0]['n'])
    bctx = mk('param', 0, bw['ps'][0]['n'])
    gparam = mk('param', 1, bw['ps'][1]['n'])
    pu = pushes(F)
    # forward never touches the context without knowing it exists
    for e in F.evs:
        if e.kind == 'call' and e.fn.startswith('tinytorch::AutogradContext::'):
            res.check((ctxp, True) in e.guard, name + '/ctx-null', evloc(e), '%s uses the autograd context without testing that there is one' % name)
    looped = any(e.loops for e, _, _ in pu)
    # ---- pops
    cover_asserts = frozenset.intersection(*[s.gs for s, _, _ in brets])
    popval = {}
    pops = [e for e in B.evs if e.kind == 'call' and e.fn == 'tinytorch::AutogradContext::popData']
    idx = {}
    for e in pops:
        before = [q for q in pops if q.seq < e.seq and not any((t, not p) in e.guard for t, p in q.guard)]
        if e.loops or any(not q.guard <= e.guard for q in before):
            res.und(name + ': pop order depends on the path')
            idx = None
            break
        idx[e] = len(before)
    if idx is None: return
    chain = all(pu[i][0].guard <= pu[i + 1][0].guard for i in range(len(pu) - 1))
    acc_by_val = {}
    for e in B.evs:
        if e.kind == 'call' and e.fn.startswith('tinytorch::IValue::to') and e.obj is not None: acc_by_val.setdefault(e.obj, []).append(e)
    fcommon = frozenset.intersection(*[s.gs for s, _, _ in frets]) if frets else frozenset()
    for e in pops:
        k = idx[e]
        if looped or not chain:
            res.und(name + ': pushes in a loop or on alternative paths')
            return
        if not res.check(k < len(pu), '%s/pop%d' % (name, k), evloc(e), 'backward of %s pops value number %d but forward saves only %d' % (name, k + 1, len(pu))): return
        popval[e.ret] = pu[k][1]
        for a in acc_by_val.get(e.ret, ()):
            want = strip_cvref(pu[k][2] or '')
            got = strip_cvref(a.sig['ret'])
            if want: res.check(want == got, '%s/pop%d-type' % (name, k), evloc(a), 'backward of %s reads saved value %d as %s, forward saved a %s' % (name, k + 1, got, want), sample='%s pop %d: %s' % (name, k, got))

    def bcanon0(t):
        def f(x):
            if x.op == 'call' and x.a[0] == 'tinytorch::AutogradContext::popData': return None
            if x.op == 'mut' and (x.a[0] is mk('deref', bctx)): return x.a[0]
            if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'savedInputs' and x.a[0].a[0] is mk('deref', bctx):
                k = cval(x.a[1])
                if k is not None: return mk('in', k)
            if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[1] == 'savedData' and x.a[0].a[0] is mk('deref', bctx):
                k = cval(x.a[1])
                if k is not None and k < len(pu) and not pops and not looped: return pu[k][1]
            if x.op == 'call' and x.a[0].startswith('tinytorch::IValue::to') and x.a[1] is not None and x.a[1] in conv: return x.a[1]
            if x.op == 'phi' : return phi(*x.a)
            return None
        return t, f
    conv = set()
    memo = {}
    fmemo = {}

    def fcanon(t):
        """forward terms with tensor parameters replaced by input atoms"""
        if t not in fmemo:
            def f(x):
                if x.op == 'mut' and x.a[0].op in ('param', 'in'): return x.a[0]
                if x.op == 'phi': return phi(*x.a)
                return fin.get(x) if x.op == 'param' else None
            fmemo[t] = norm(rewrite(t, f))
        return fmemo[t]
    for val in list(popval.values()) + [q[1] for q in pu]: conv.add(fcanon(val))

    def bcanon(t):
        if t in memo: return memo[t]
        def f(x):
            return None
        # popData results first (their receiver terms carry the pop history), then context/state cleanup
        def step(x):
            if x.op == 'mut' and x.a[0] is mk('deref', bctx): return x.a[0]
            if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[0] is mk('deref', bctx):
                k = cval(x.a[1])
                if x.a[0].a[1] == 'savedInputs' and k is not None: return mk('in', k)
                if x.a[0].a[1] == 'savedData' and k is not None and not pops and not looped and k < len(pu): return fcanon(pu[k][1])
            if x.op == 'call' and x.a[0].startswith('tinytorch::IValue::to') and x.a[1] is not None and (x.a[1] in conv): return x.a[1]
            if x.op == 'phi': return phi(*x.a)
            if x is gparam: return G
            return None
        r = norm(rewrite_pop(t, popval, fcanon, step))
        memo[t] = r
        return r
    inputs = {mk('in', k): mk('in', k) for k in range(len(tparams))}
    inputs[G] = G
    BF = Form(B, inputs, bcanon)
    FF = Form(F, {mk('in', k): mk('in', k) for k in range(len(tparams))}, fcanon)
    for v_ in popval.values(): pass
    # ---- gradient deliveries
    adds = {}
    for e in B.evs:
        if e.kind == 'call' and e.fn == 'tinytorch::Tensor::addGrad':
            tgt = bcanon(e.obj)
            if tgt.op != 'in':
                res.und(name + ': addGrad to ' + show(tgt)[:60])
                return
            if not res.check(tgt.a[0] < len(tparams), '%s/input' % name, evloc(e), 'backward of %s delivers a gradient to saved input %s, but forward has %d tensor inputs' % (name, tgt.a[0], len(tparams))): return
            adds.setdefault(tgt, []).append(e)
    for e in B.evs:
        if e.kind == 'call' and e.fn in ('tinytorch::Tensor::setGrad', 'tinytorch::AutogradMeta::setGrad'):
            res.bad(name + '/overwrite', evloc(e), 'backward of %s overwrites a gradient instead of adding to it' % name)
    # saved inputs read are in range
    # ---- expected cotangents
    expected = None
    try:
        expected = {}
        for st, v_, n in frets:
            y = FF.nf(v_, ret_ev(F, st, n))
            acc = {}
            vjp(y, G, acc)
            expected[st] = acc
    except (NoForm, alg.Undecided) as x:
        res.und('%s: forward: %s' % (name, x))
        expected = None
    common = frozenset((bcanon(t), p) for t, p in cover_asserts)
    fasserts = frozenset((fcanon(t), p) for t, p in fcommon)
    diffable = set()
    if expected is not None:
        for acc in expected.values(): diffable |= set(acc)
    for k in range(len(tparams)):
        x = mk('in', k)
        rg = mk('call', 'tinytorch::Tensor::requiresGrad', x, (), 0)
        df = mk('call', 'tinytorch::Tensor::defined', x, (), 0)
        if (rg, False) in common: continue
        es = adds.get(x, [])
        if x in diffable or es:
            gl = []
            for e in es:
                lits = [(bcanon(t), p) for t, p in e.gl]
                other = [(t, p) for t, p in lits if t.op == 'call' and t.a[0].endswith('::requiresGrad') and t is not rg]
                res.check(not other, '%s/guard%d' % (name, k), evloc(e), 'backward of %s delivers the gradient of input %d only if another tensor %s' % (
                    name, k + 1, 'requires' if not other or other[0][1] else 'does not require'))
                gl.append(frozenset((t, p) for t, p in lits if not any(s.op == 'hav' for s in subterms(t))))
            cov = guard_cover(gl, common | fasserts | {(rg, True), (df, True)})
            res.check(cov, '%s/cover%d' % (name, k), loc_of(bw), 'backward of %s does not deliver a gradient to input %d on every path on which it requires one' % (name, k + 1), sample='%s: gradient of input %d on all paths' % (name, k))
            # delivered at most once per path
            for i, e in enumerate(es):
                for q in es[:i]:
                    if not any((t, not p) in q.guard for t, p in e.guard):
                        res.bad('%s/twice%d' % (name, k), evloc(e), 'backward of %s delivers the gradient of input %d twice' % (name, k + 1))
        if expected is None: continue
        for e in es:
            with res.instance('%s/in%d' % (name, k)):
                formula(res, P, name, k, x, e, bcanon, BF, B, expected, frets, fcanon, tparams)


def rewrite_pop(t, popval, fcanon, step):
    """replace popData() results by the forward values, then normalise bottom-up"""
    memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x in memo:
            st.pop()
            continue
        if x in popval:
            memo[x] = fcanon(popval[x])
            st.pop()
            continue
        ch = [y for y in children(x) if y not in memo]
        if ch:
            st.extend(ch)
            continue
        a = tuple(memo[y] if isinstance(y, T) else mapt(y, memo) if isinstance(y, tuple) else y for y in x.a)
        n = x if a == x.a else mk(x.op, *a)
        r = step(n)
        memo[x] = n if r is None else r
        st.pop()
    return memo[t]


class ret_ev:
    """stands for the return edge when replaying in-place updates"""

    def __init__(self, F, st, node):
        self.seq = F.seq + 1
        self.guard = st.gs


def number(t): return t.op in ('c', 'param') or t.op in ('*', '+', '-', 'neg', '/') and all(number(y) for y in t.a)


def strip_sum(t):
    """the summand and the sums over broadcast dimensions; a sum commutes with negation and constant factors"""
    if t.op == 'sumto':
        c, r = strip_sum(t.a[0])
        return c, [t] + r
    if t.op == 'neg':
        c, r = strip_sum(t.a[0])
        return (mk('neg', c), r) if r else (t, [])
    if t.op == '*' and sum(not number(y) for y in t.a) == 1:
        k = next(i for i, y in enumerate(t.a) if not number(y))
        c, r = strip_sum(t.a[k])
        return (mk('*', *[c if i == k else y for i, y in enumerate(t.a)]), r) if r else (t, [])
    return t, []


def formula(res, P, name, k, x, e, bcanon, BF, B, expected, frets, fcanon, tparams):
    key = '%s/grad%d' % (name, k)
    lits = frozenset((bcanon(t), p) for t, p in e.gl)
    try:
        got = BF.nf(e.args[0], e)
    except NoForm as n:
        res.und('%s: backward: %s' % (key, n))
        return
    core, red = strip_sum(got)
    if core.op == 'perm' and core.a[1] != 'all' and core.a[1].op == 'hav':
        kind = permvec(B, core.a[1], k)
        if kind: core = mk('perm', core.a[0], mk('inverse', mk('saved')) if kind == 'inverse' else mk('saved'))
    for st, acc in expected.items():
        fl = frozenset((fcanon(t), p) for t, p in st.gl)
        if any((t, not p) in lits for t, p in fl): continue
        ts = acc.get(x)
        if not ts:
            res.bad(key, evloc(e), 'backward of %s delivers a gradient to input %d, which the forward result does not depend on' % (name, k + 1))
            continue
        want = ts[0]
        for y in ts[1:]: want = mk('+', want, y)
        want, _ = strip_sum(want)
        r = same_form(core, want)
        if r is None:
            res.und('%s: %s  vs  %s' % (key, show(core)[:150], show(want)[:150]))
            continue
        res.check(r, key, evloc(e), 'backward of %s: gradient of input %d is  %s  but the derivative of forward is  %s' % (name, k + 1, show(core)[:300], show(want)[:300]), sample='%s = %s' % (key, show(core)[:100]))
    # broadcasting: an operand that was expanded gets the sum over the expanded dimensions
    if len(tparams) >= 2 and elementwise_result(expected, x) and core.op not in ('mm',):
        if not red and any(y.op == 'sumto' for y in subterms(core)): res.und('%s: where the gradient is summed' % key)
        elif not red:
            res.bad(key + '/reduce', evloc(e), 'backward of %s does not sum the gradient of input %d over broadcast dimensions' % (name, k + 1))
        elif any(s.op == 'hav' for s in subterms(red[0].a[1])):
            d = B.deps(raw_dims(e.args[0]), set()) if raw_dims(e.args[0]) is not None else ()
            refs = {bcanon(s.a[1]) for s in d if s.op == 'call' and s.a[0].split('::')[-1] in ('shape', 'dim', 'size', 'numel', 'sizes') and s.a[1] is not None}
            oth = {r for r in refs if r.op == 'in' and r is not x}
            ok = res.check(x in refs and not oth, key + '/reduce', evloc(e), 'backward of %s reduces the gradient of input %d to the shape of another tensor' % (name, k + 1))
            if ok:
                with res.instance(key + '/dims'):
                    why = reduced_dims(B, raw_dims(e.args[0]), bcanon, x, e.args[0])
                    res.check(not why, key + '/dims', evloc(e), 'backward of %s: gradient of input %d is not summed over exactly the dimensions it was broadcast in: %s' % (name, k + 1, why))
    # broadcast back over a full reduction
    for st, v_, n in frets:
        op, args = asop(v_)
        if op == 'sum' and len(tparams) == 1:
            res.check(contains(bcanon(e.args[0]), x), key + '/expand', evloc(e), 'backward of %s does not expand the gradient to the shape of its input' % name)


def reduced_dims(B, d, bcanon, x, whole):
    """the dimensions collected in the list d, tabulated from the guard of its append for operand and result shapes of every relation; None or the difference"""
    from itertools import product
    if d is None or d.op != 'hav' or d.a[0] not in B.loopinfo: raise Unk('list of dimensions')
    info = B.loopinfo[d.a[0]]
    lid, loc = d.a[0], d.a[2]
    nx, cd = info['next'].get(loc), info['cond']
    i0 = info['init'].get(loc)
    while i0 is not None and i0.op == 'mut':
        if not any(e.seq == i0.a[1] and e.fn.split('::')[-1] == 'reserve' for e in B.evs if e.kind in ('call', 'icall')): raise Unk('list of dimensions')
        i0 = i0.a[0]
    if nx is None or cd is None or (i0 is not None and not (i0.op == 'new' and not i0.a[1])): raise Unk('list of dimensions')
    cnts = [l for l in info['next'] if l is not loc and info['init'].get(l) is not None]
    class Out(Exception): pass
    def ev(t, E):
        o = t.op
        if o == 'c': return t.a[0]
        if t in E: return E[t]
        if o in ('cast', 'mut', 'tofloat'): return ev([y for y in t.a if isinstance(y, T)][-1], E)
        if o == '+': return sum(ev(y, E) for y in t.a)
        if o == '*':
            r = 1
            for y in t.a: r *= ev(y, E)
            return r
        if o == '-': return ev(t.a[0], E) - ev(t.a[1], E)
        if o == 'neg': return -ev(t.a[0], E)
        if o in ('max', 'min'): return (max if o == 'max' else min)(ev(y, E) for y in t.a)
        if o == '<': return ev(t.a[0], E) < ev(t.a[1], E)
        if o == '<=': return ev(t.a[0], E) <= ev(t.a[1], E)
        if o == '==': return ev(t.a[0], E) == ev(t.a[1], E)
        if o == 'not': return not ev(t.a[0], E)
        if o == 'and': return all(ev(y, E) for y in t.a)
        if o == 'or': return any(ev(y, E) for y in t.a)
        if o == 'phi': return ev(t.a[1] if ev(t.a[0], E) else t.a[2], E)
        if o == 'app': return ev(t.a[0], E) + (ev(t.a[1], E),)
        if o == 'elem':
            s, i = ev(t.a[0], E), ev(t.a[1], E)
            if not isinstance(s, tuple): raise Unk('shape')
            if not 0 <= i < len(s): raise Out()
            return s[i]
        if o == 'fld' and t.a[1] == 'shape_':
            y = t.a[0]
            while y.op == 'deref' or (y.op == 'fld' and y.a[1] == 'impl_'): y = y.a[0]
            return E['shape'](y)
        if o == 'call':
            n = t.a[0].split('::')[-1]
            if n in ('shape', 'sizes') and t.a[0].startswith('tinytorch::Tensor'):
                s = E['shape'](t.a[1])
                if not t.a[2]: return s
                i = ev(t.a[2][0], E)
                if i < 0: i += len(s)
                if not 0 <= i < len(s): raise Out()
                return s[i]
            if n == 'dim' and t.a[0].startswith('tinytorch::Tensor'): return len(E['shape'](t.a[1]))
            if n in ('size', 'ssize') and t.a[1] is not None:
                s = ev(t.a[1], E)
                if isinstance(s, tuple): return len(s)
            if n == 'empty' and t.a[1] is not None:
                s = ev(t.a[1], E)
                if isinstance(s, tuple): return len(s) == 0
            if n == 'reserve': return 0
        raise Unk('dimension list: ' + show(t)[:80])
    def summed(t, E):
        """the summed branch is the one delivered"""
        while t.op in ('mut', 'cast'): t = [y for y in t.a if isinstance(y, T)][0]
        if t.op == 'phi':
            p, q = [any(s.op == 'call' and s.a[0].endswith('sumOnDims') for s in subterms(y)) for y in t.a[1:]]
            if p != q: return summed(t.a[1], E) if bool(ev(t.a[0], E)) else summed(t.a[2], E)
        return any(s.op == 'call' and s.a[0].endswith('sumOnDims') for s in subterms(t))
    for rank in range(4):
        for out in product((1, 3), repeat=rank):
            for lead in range(rank + 1):
                for own in product((0, 1), repeat=rank - lead):
                    me = tuple(o if f else 1 for o, f in zip(out[lead:], own))
                    def shape(y):
                        c = bcanon(y)
                        return me if c is x else out
                    st = {l: ev(info['init'][l], {'shape': shape}) if cd_uses(B, lid, l, nx, cd, info) else None for l in cnts}
                    acc = ()
                    havs = {s.a[2]: s for q in (nx, cd) for s in subterms(q) if s.op == 'hav' and s.a[0] == lid}
                    try:
                        for _ in range(12):
                            E = {'shape': shape}
                            for l, hv in havs.items(): E[hv] = acc if l is loc else st.get(l)
                            E[d] = acc
                            if not ev(cd, E): break
                            n2 = ev(nx, E)
                            st = {l: ev(info['next'][l], E) if v is not None else None for l, v in st.items()}
                            acc = n2
                        else: raise Unk('loop over dimensions')
                    except Out:
                        return 'operand %s in a result %s: a dimension that does not exist is looked up' % (list(me), list(out))
                    E = {'shape': shape, d: acc}
                    if not summed(whole, E): acc = ()
                    need_ = {i for i in range(rank) if (i < lead or me[i - lead] == 1) and out[i] != 1}
                    keep = {i for i in range(rank) if i >= lead and me[i - lead] != 1}
                    got = {i + rank if i < 0 else i for i in acc}
                    if not need_ <= got or got & keep: return 'operand %s in a result %s: summed over %s' % (list(me), list(out), sorted(got))
    return None


def cd_uses(B, lid, l, nx, cd, info):
    """location l of the loop is one its condition or the list depends on"""
    return any(s.op == 'hav' and s.a[0] == lid and s.a[2] is l for q in (nx, cd) for s in subterms(q))


def permvec(B, h, k):
    """how the vector h is filled from the sequence saved by forward: 'inverse' h[saved[i]] = i, 'same' h[i] = saved[i]"""
    info = B.loopinfo.get(h.a[0])
    nx = info and info['next'].get(h.a[2])
    if nx is None or nx.op != 'st' or nx.a[0] is not h: return None
    x, y = nx.a[1], nx.a[2]
    def saved(t):
        if t.op == 'call' and t.a[0].startswith('tinytorch::IValue::to'): t = t.a[1]
        return t.a[1] if t.op == 'elem' and t.a[0].op == 'fld' and t.a[0].a[1] == 'savedData' else None
    if saved(x) is y: return 'inverse'
    if saved(y) is x: return 'same'
    return None


def raw_dims(t):
    for s in subterms(t):
        if s.op == 'call' and s.a[0].split('::')[-1] == 'sumOnDims': return s.a[2][1]
    return None


def elementwise_result(expected, x):
    """the forward result is an elementwise combination in which this input may be broadcast"""
    for acc in expected.values():
        for t in acc.get(x, ()):
            if any(s.op in ('mm', 'col2im', 'perm', 'op', 'scatter1', 'tr') for s in subterms(t)): return False
    return True


def atomize(t):
    """non-arithmetic subterms as named atoms"""
    m = {}
    for l in leaves(t): m[l] = l
    return m


def same_form(a, b):
    """True/False, None if outside the rules"""
    if a is b: return True
    if a.op in ARITH or b.op in ARITH or alg.stdfn(a) or alg.stdfn(b):
        la, lb = leaves(a), leaves(b)
        # unify structural leaves
        ren = {}
        for p in la:
            for q in lb:
                if p is not q and p.op == q.op and p.op not in ('in', 'atom') and same_form(p, q): ren[p] = q
        if ren: a = subst(a, ren)
        bad = [l for l in leaves(a) + leaves(b) if l.op not in ('in', 'atom', 'mm', 'col2im', 'param', 'call', 'fld', 'op', 'tr', 'new')]
        if bad: return None
        def assume(rank, keys):
            vs = list(rank.values())
            return len(set(vs)) == len(vs)      # derivative at points where the compared quantities differ
        try:
            ok, why = alg.equal(a, b, lambda t: ('x', t.id) if t.op in ('in', 'atom', 'mm', 'col2im', 'param', 'fld', 'op', 'tr', 'new') or (t.op == 'call' and not alg.stdfn(t)) else None, assume)
            return ok
        except alg.Undecided:
            return None
    if a.op == 'sumto': return same_form(a.a[0], b)
    if b.op == 'sumto': return same_form(a, b.a[0])
    if a.op == 'col2im' and b.op == 'col2im':
        r = same_form(a.a[0], b.a[0])
        if r is not True: return r
        sa, sb = a.a[1], b.a[1]
        src = sb.a[0] if sb.op == 'shapeof' else None
        if src is not None and not (sa.op == 'call' and sa.a[0].split('::')[-1] == 'shape' and sa.a[1] is src): 
            if not (sa.op == 'call' and sa.a[0].split('::')[-1] == 'shape'): return None
            return False
        return tuple(map(norm, a.a[2:])) == tuple(map(norm, b.a[2:]))
    if a.op == 'perm' and b.op == 'perm':
        if a.a[0] is not b.a[0]: return False if a.a[0].op == b.a[0].op == 'atom' else None
        if a.a[1] == 'all' and b.a[1] == 'all': return True
        if b.a[1] != 'all' and b.a[1].op == 'inverse':
            if a.a[1].op == 'inverse': return True if a.a[1].a[0].op == 'saved' else None
            if a.a[1] is b.a[1].a[0] or a.a[1].op == 'saved': return False       # permuting twice the same way is not the inverse
            return None
        return None
    if a.op == 'op' and b.op == 'op':
        if a.a[0] != b.a[0]: return False if a.a[0].endswith('Backward') and b.a[0].endswith('Backward') else None
        if len(a.a[1]) != len(b.a[1]): return None
        rs = [same_form(p, q) for p, q in zip(a.a[1], b.a[1])]
        if all(r is True for r in rs): return True
        return False if a.a[0].endswith('Backward') and all(r is not None or atomic(p, q) for r, p, q in zip(rs, a.a[1], b.a[1])) else None
    if any(s.op == 'perm' and s.a[0].op == 'atom' for t in (a, b) for s in subterms(t)) and b.op in ('scatter1', 'mm'):
        # layouts in the middle of a composition: decided here only when they agree (the composition as a whole is C15's business)
        if b.op == 'mm' and a.op == 'mm': return True if a is b or norm(a) is norm(b) else None
        if b.op == 'scatter1' and a.op == 'iput' and a.a[0] is C(0) and len(a.a[1]) == 2 and a.a[1][1] is b.a[0] and a.a[2] is b.a[1]: return True
        return None
    if b.op == 'scatter1':
        # one contribution per output position: index table (row, winner) <- gradient
        if a.op == 'iput' and a.a[0] is C(0) and len(a.a[1]) == 2:
            if a.a[1][1] is b.a[0] and a.a[2] is b.a[1]: return True
            if a.a[2].op in ('atom', 'in', 'nth') or a.a[1][1].op in ('atom', 'in', 'nth'): return False
        return None
    if a.op == 'mm' and b.op == 'mm':
        if len(a.a[0]) == len(b.a[0]):
            rs = [same_form(p, q) for p, q in zip(a.a[0], b.a[0])]
            if all(r is True for r in rs): return True
        base = ('in', 'atom', 'tr', 'im2col')
        if all(f.op in base for f in a.a[0] + b.a[0]): return False
        return None
    simple = ('in', 'atom', 'mm', 'tr', 'perm', 'col2im', 'c', 'im2col')
    if a.op in simple and b.op in simple:
        if a.op == b.op == 'tr': return same_form(a.a[0], b.a[0])
        if a.op == b.op == 'im2col': return same_form(a.a[0], b.a[0]) and tuple(map(norm, a.a[1:])) == tuple(map(norm, b.a[1:]))
        return False
    if a.op in ('param', 'call', 'fld') and b.op in ('param', 'call', 'fld'): return norm(a) is norm(b)
    return None


def inverse(p):
    if p.op == 'list':
        v = [cval(x) for x in p.a[0]]
        if all(isinstance(x, int) for x in v) and sorted(x % len(v) for x in v) == list(range(len(v))):
            inv = [0] * len(v)
            for i, x in enumerate(v): inv[x % len(v)] = i
            return mk('list', tuple(C(x) for x in inv))
    return mk('inverse', p)


def atomic(p, q):
    return p.op in ('in', 'atom', 'param') and q.op in ('in', 'atom', 'param')


def norm(t):
    return rewrite(t, lambda x: mk('call', x.a[0], x.a[1], x.a[2], 0) if x.op == 'call' else None)


class KForm(Form):
    """form of a kernel result: tensors filled by an elementwise iteration have that formula as their content"""

    def __init__(self, I, inputs, iters):
        Form.__init__(self, I, inputs, norm0)
        self.iters = iters
        self.sizes = {}

    def nf0(self, t):
        if t in self.iters: return self.iters[t]
        return Form.nf0(self, t)

    def opform(self, op, args, self_nf, ev):
        if op in ('mean', 'sum'):
            x = self_nf if self_nf is not None else self.nf(args[0], ev)
            return mk('op', op, (x,))
        if op == 'indexAdvance': return mk('take', self.nf(args[0], ev), tuple(self.anyform(y, ev) for y in self.lst(args[1])))
        if op in ('T.arange',): return mk('op', op, tuple(self.par(a) for a in args[:3]))
        return Form.opform(self, op, args, self_nf, ev)


def norm0(t):
    return norm(rewrite(t, lambda x: x.a[0] if x.op == 'mut' else None))


def kform(P, fn, enumval, where):
    from c_elem import red_opaque
    I = Interp(P, Policy(opaque=lambda rec: rec['fn'].startswith(KERNEL_OPAQUE) or rec.get('_disp') or red_opaque(rec)))
    args = [enumval if 'LossReduction' in p['t'] else mk('param', i, p['n']) for i, p in enumerate(fn['ps'])]
    rets = I.run(fn, args=args)
    if len(rets) != 1: raise NoForm('several return paths')
    inputs = {}
    names = []
    for i, p in enumerate(fn['ps']):
        if strip_cvref(p['t']) == TENS: names.append(mk('param', i, p['n']))
    return I, rets[0], names


def iterforms(I, m):
    from c_elem import dehalf, strip
    iters = {}
    for e in list(I.evs):
        if e.kind == 'call' and e.fn.split('::')[-1].startswith('forEach') and 'TensorIterator' in e.fn:
            it = strip(e.obj)
            if it.op != 'new': raise NoForm('iterator')
            at = [mk('el', i) for i in range(len(it.a[1]))]
            v = dehalf(I.apply(e.args[1], at))
            sub = {}
            for a, x in zip(at, it.a[1]):
                x = norm0(strip(x))
                if x not in m: raise NoForm('operand of the iteration')
                sub[a] = m[x]
            iters[norm0(strip(e.args[0]))] = subst(v, sub)
    return iters


def nsize(t, local):
    """element count terms -> N (number of elements averaged over)"""
    def f(x):
        if x.op == 'call' and x.a[0] == 'tinytorch::Tensor::numel' and x.a[1] in local: return mk('atom', 'N')
        if x.op == 'call' and x.a[0] == 'tinytorch::Tensor::shape' and len(x.a[2]) == 1 and cval(x.a[2][0]) == 0 and local is NLL: return mk('atom', 'N')
        if x.op == 'call' and x.a[0] == 'tinytorch::Tensor::numel' and local is NLL and x.a[1] is mk('in', 1): return mk('atom', 'N')
        return None
    return rewrite(t, f)


NLL = ('nll',)


def loss_kernels(res, P, O):
    for op in ('mseLoss', 'nllLoss'):
        enums = P.enums.get('tinytorch::LossReduction') or {}
        vals = enum_terms(P, 'tinytorch::LossReduction')
        fwd = {dt: r for (o, d, dt), r in O.table.items() if o == op and d == 'CPU'}
        bwd = {dt: r for (o, d, dt), r in O.table.items() if o == op + 'Backward' and d == 'CPU'}
        for dt in sorted(set(fwd) & set(bwd) & {'Float32', 'Float16', 'BFloat16'}):
            for ev_ in vals:
                with res.instance('%s/%s/%s' % (op, dt, show(ev_))):
                    loss_one(res, P, op, dt, ev_, fwd[dt].fn, bwd[dt].fn)


def enum_terms(P, name):
    e = P.enums.get(name)
    if not e: raise Broken('enum %s not found' % name)
    return [mk('enum', name + '::' + n if '::' not in n else n, v) for n, v in enum_items(e)]


def enum_items(e):
    it = e.get('items') or e.get('vals') or e.get('e')
    return [(x['n'], x['v']) if isinstance(x, dict) else tuple(x) for x in (it.items() if isinstance(it, dict) else it)]


def loss_one(res, P, op, dt, red, fw, bw):
    res.fn(fw)
    res.fn(bw)
    a, b = mk('in', 0), mk('in', 1)
    I, (st, v, n), ts = kform(P, fw, red, '')
    m = {ts[0]: a, ts[1]: b}
    FF = KForm(I, m, iterforms(I, m))
    f = FF.nf(v, ret_ev(I, st, n))
    J, (st2, v2, n2), tb = kform(P, bw, red, '')
    mb = {tb[0]: G, tb[1]: a, tb[2]: b}
    JI = iterforms(J, mb)
    BF = KForm(J, mb, JI)
    got = BF.nf(v2, ret_ev(J, st2, n2))
    # expected: strip the reductions off the forward value
    ct = G
    while f.op == 'op' and f.a[0] in ('mean', 'sum'):
        inner = f.a[1][0]
        if f.a[0] == 'mean': ct = div(ct, mk('atom', 'N')) if inner.op != 'op' else ct
        elif inner.op == 'op' and inner.a[0] in ('mean', 'sum'): pass      # sum of a single element
        f = inner
    scale = C(1)
    key = '%s/%s/%s' % (op, dt, show(red))
    where = loc_of(bw)
    if op == 'mseLoss':
        local = {rewrite(x, lambda y: mb.get(y)) for x in JI}
        acc = {}
        vjp(f, ct, acc)
        want = acc[a][0]
        got = nsize(got, local)
        lv = [l for l in leaves(got) if l not in (a, b, G, mk('atom', 'N'))]
        if any(l.op != 'call' for l in lv): raise NoForm('leaf %s' % show(lv[0]))
        ok, why = alg.equal(got, want, lambda t: ('x', t.id) if t.op in ('in', 'atom') or t in lv else None)
        res.check(ok, key, where, 'gradient kernel of %s (%s): %s' % (op, show(red), why), sample='%s: d = %s' % (key, show(want)[:80]))
        return
    # nllLoss: picked elements times a factor
    if f.op in ARITH and len([l for l in leaves(f) if l.op == 'take']) == 1:
        take = [l for l in leaves(f) if l.op == 'take'][0]
        scale = subst(alg.diff(subst(f, {take: mk('atom', 'T')}), mk('atom', 'T')), {mk('atom', 'T'): C(1)})
    elif f.op == 'take': take = f
    else: raise NoForm('forward form')
    put = [l for l in leaves(got) if l.op == 'iput']
    if len(put) != 1: raise NoForm('backward form')
    put = put[0]
    if put.a[0] is not C(0) and cval(put.a[0]) != 0: raise NoForm('backward form')
    idx_ok = take.a[0] is a and take.a[1] == put.a[1]
    res.check(idx_ok, key + '/index', where, 'gradient kernel of nllLoss scatters to %s, forward gathers from %s' % (show(put.a[1])[:120], show(take.a[1])[:120]))
    g2 = subst(got, {put: mk('atom', 'P')})
    k = subst(alg.diff(g2, mk('atom', 'P')), {mk('atom', 'P'): C(1)})
    rest = subst(g2, {mk('atom', 'P'): C(0)})
    eff = nsize(mul(k, put.a[2]), NLL)
    want = mul(scale, ct)
    lv = [l for l in leaves(eff) if l not in (G, mk('atom', 'N'))]
    if any(l.op != 'call' for l in lv): raise NoForm('leaf %s' % show([l for l in lv if l.op != 'call'][0]))
    ok, why = alg.equal(eff, want, lambda t: ('x', t.id) if t.op in ('in', 'atom') or t in lv else None)
    res.check(ok, key, where, 'gradient kernel of nllLoss (%s): %s' % (show(red), why))


def kernels(res, P, O):
    loss_kernels(res, P, O)
