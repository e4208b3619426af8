"""Optimizers and schedulers: update rule of every optimizer in every mode, state initialisation, skipping, step protocol."""
from model import *
import alg
from alg import v, call, add, sub, mul, div, ng, ite, lt, le
from c_elem import SPEC, dehalf
from c_grad import scal, asop, OPSYM
from c_engine import unhav, Unk, FN

NS = 'tinytorch::optim::'
p, g, lr, wd, t = v('p'), v('g'), v('lr'), v('wd'), v('step')
ONE, ZERO = C(1), C(0)


def sq(x): return call('sqrt', x)


def mx(x, y): return ite(lt(x, y), y, x)


def S(i): return v('s%d' % i)


# role of each constructor parameter, per class (public signatures)
ROLES = {
    'SGD': ['params', 'lr', 'momentum', 'dampening', 'wd', 'nesterov'],
    'Adagrad': ['params', 'lr', 'lrDecay', 'wd', 'initAcc', 'eps'],
    'RMSprop': ['params', 'lr', 'alpha', 'eps', 'wd', 'momentum', 'centered'],
    'AdaDelta': ['params', 'lr', 'rho', 'eps', 'wd'],
    'Adam': ['params', 'lr', 'beta', 'eps', 'wd', 'amsgrad'],
    'AdamW': ['params', 'lr', 'beta', 'eps', 'wd', 'amsgrad'],
}
FLAGS = {'nesterov', 'centered', 'amsgrad'}
# hyperparameters whose vanishing selects another rule
SWITCH = {'wd', 'momentum'}


def spec(cls, m):
    """(new p, {state: new value}, state count) of one step in mode m (dict of switches)"""
    gd = add(g, mul(wd, p)) if m['wd'] else g
    e, mu = v('eps'), v('momentum')
    if cls == 'SGD':
        if not m['momentum']: return sub(p, mul(lr, gd)), []
        b = add(mul(mu, S(0)), mul(sub(ONE, v('dampening')), gd)) if m['s0'] else gd
        d = add(gd, mul(mu, b)) if m['nesterov'] else b
        return sub(p, mul(lr, d)), [b]
    if cls == 'Adagrad':
        s = add(S(0), mul(gd, gd))
        clr = div(lr, add(ONE, mul(sub(t, ONE), v('lrDecay'))))
        return sub(p, div(mul(clr, gd), add(sq(s), e))), [s]
    if cls == 'RMSprop':
        al = v('alpha')
        s = add(mul(al, S(0)), mul(sub(ONE, al), mul(gd, gd)))
        st = [s]
        k = 1
        if m['centered']:
            a = add(mul(al, S(k)), mul(sub(ONE, al), gd))
            st.append(a)
            k += 1
            d = div(gd, add(sq(sub(s, mul(a, a))), e))
        else: d = div(gd, add(sq(s), e))
        if m['momentum']:
            b = add(mul(mu, S(k)), d)
            st.append(b)
            d = b
        return sub(p, mul(lr, d)), st
    if cls == 'AdaDelta':
        rho = v('rho')
        s = add(mul(rho, S(0)), mul(sub(ONE, rho), mul(gd, gd)))
        d = mul(div(sq(add(S(1), e)), sq(add(s, e))), gd)
        u = add(mul(rho, S(1)), mul(sub(ONE, rho), mul(d, d)))
        return sub(p, mul(lr, d)), [s, u]
    b1, b2 = v('beta1'), v('beta2')
    pp = p
    if cls == 'AdamW':
        gd = g
        pp = mul(p, sub(ONE, mul(lr, wd))) if m['wd'] else p
    s = add(mul(b1, S(0)), mul(sub(ONE, b1), gd))
    w = add(mul(b2, S(1)), mul(sub(ONE, b2), mul(gd, gd)))
    mh = div(s, sub(ONE, call('pow', b1, t)))
    vh = div(w, sub(ONE, call('pow', b2, t)))
    st = [s, w]
    if m['amsgrad']:
        vh = mx(S(2), vh)
        st.append(vh)
    return sub(pp, div(mul(lr, mh), add(sq(vh), e))), st


def classes(P):
    out = {}
    for r in P.funcs.values():
        c = r.get('cls') or ''
        if c.startswith(NS) and c.count('::') == 2 and r.get('ctor') and r['ps'] and 'Tensor *' in r['ps'][0]['t']: out.setdefault(c, r)
    return out


def opol(P, cls, bases):
    def virt(fn, rec):
        n = fn.split('::')[-1]
        for c in [cls] + bases:
            rs = [r for r in P.by_name.get(c + '::' + n, [])]
            if rs: return rs[0]
        return rec
    return Policy(opaque=lambda rec: rec['fn'].startswith(('tinytorch::Tensor::', 'tinytorch::Scalar::', 'tinytorch::operator', 'tinytorch::function::', 'tinytorch::Options::', 'tinytorch::options::')) or rec.get('_disp'),
                  virt=virt, compound=True)


def bases_of(P, cls):
    out = []
    c = cls
    while c in P.classes and P.classes[c].get('bases'):
        c = P.classes[c]['bases'][0]
        c = c if isinstance(c, str) else c.get('n') or c.get('t')
        out.append(c)
    return out


class Opt:
    def __init__(self, P, cls, ctor):
        self.P, self.cls, self.short = P, cls, cls.split('::')[-1]
        self.bases = bases_of(P, cls)
        self.roles = ROLES.get(self.short)
        I = Interp(P, opol(P, cls, self.bases))
        I.run(ctor)
        self.ctor, self.CI = ctor, I
        self.field = {}
        ps = [mk('param', i, q['n']) for i, q in enumerate(ctor['ps'])]
        self.params = ps
        self.rolep = {}
        if self.roles and len(ps) == len(self.roles):
            for q, r in zip(ps, self.roles):
                if r == 'beta':
                    self.rolep[mk('fld', q, 'first')] = 'beta1'
                    self.rolep[mk('fld', q, 'second')] = 'beta2'
                else: self.rolep[q] = r
        for e in I.evs:
            if e.kind in ('init', 'write') and e.objloc.op == 'F' and e.objloc.a[0].op == 'D':
                x = e.args[0]
                while x.op in ('cast', 'tofloat') and isinstance(x.a[-1], T): x = x.a[-1]
                r = self.rolep.get(x)
                if r: self.field[e.objloc.a[1]] = r
                elif cval(x) == 0 and e.kind == 'init' and not isinstance(cval(x), float): self.field.setdefault(e.objloc.a[1], 'step')
        # methods through the class hierarchy
        self.step_fn = None
        for c in [cls] + self.bases:
            rs = P.by_name.get(c + '::doStep')
            if rs:
                self.step_fn = rs[0]
                break


NUMMODE = {'wd': 0.125, 'momentum': 0.75}


class ModeEval:
    def __init__(self, o, I, mode):
        self.o, self.I, self.mode = o, I, mode

    def num(self, t):
        """numeric value of a hyperparameter expression in this mode"""
        c = cval(t)
        if c is not None: return c
        r = self.o.role(t)
        if r in FLAGS: return 1 if self.mode[r] else 0
        if r in SWITCH: return NUMMODE[r] if self.mode[r] else 0.0
        if r == 'step' and self.mode.get('step'): return self.mode['step']
        if t.op in ('+', '-', '*') and len(t.a) == 2:
            x, y = self.num(t.a[0]), self.num(t.a[1])
            return x + y if t.op == '+' else x - y if t.op == '-' else x * y
        if t.op in ('cast', 'tofloat', 'fcast') and isinstance(t.a[-1], T): return self.num(t.a[-1])
        raise Unk('condition on %s' % show(t)[:80])

    def b(self, t):
        u = unhav(t)
        if u.op == 'inrange': return True
        if u.op == 'c': return bool(u.a[0])
        if u.op == 'not': return not self.b(u.a[0])
        if u.op == 'and': return self.b(u.a[0]) and self.b(u.a[1])
        if u.op == 'or': return self.b(u.a[0]) or self.b(u.a[1])
        if u.op == 'phi': return self.b(u.a[1]) if self.b(u.a[0]) else self.b(u.a[2])
        if u.op in ('==', '<', '<='):
            if any(s.op == 'call' and s.a[0].split('::')[-1] in ('size', 'end', 'begin') for s in subterms(u)): return True
            x, y = self.num(u.a[0]), self.num(u.a[1])
            return x == y if u.op == '==' else x < y if u.op == '<' else x <= y
        if u.op == 'call' and u.a[0].endswith('::defined'):
            x = self.val(u.a[1])
            if self.o.isgrad(x): return self.mode['grad']
            s = self.o.state(x)
            if s is not None: return self.mode['defd']
            if x.op == 'call' or x.op == 'new': return x.op == 'call' or bool(x.a[1])
        r = self.o.role(u)
        if r is not None: return bool(self.num(u))
        raise Unk('condition %s' % show(u)[:100])

    def val(self, t):
        while True:
            t = unhav1(t)
            if t.op == 'phi': t = t.a[1] if self.b(t.a[0]) else t.a[2]
            elif t.op == 'new' and t.a[0] == 'tinytorch::Tensor' and len(t.a[1]) == 1: t = t.a[1][0]
            else: return t

    def guard(self, e):
        return all(self.b(t) == pol for t, pol in e.gl if not loopcond(t))


def loopcond(t):
    return t.op == 'inrange' or any(s.op == 'call' and s.a[0].split('::')[-1] in ('size', 'end', 'begin') for s in subterms(t))


def unhav1(t):
    return t


def check_optim(res):
    P = res.p
    Ops(P)
    res.rule = ('in every mode, one step of every optimizer replaces parameter and state by exactly the update rule of the optimizer, skips parameters without gradient, keeps its state in tensors of its own '
                'and leaves the gradient untouched; states start at their defined initial value; schedulers set the rate they compute')
    cl = classes(P)
    n = 0
    for c, ctor in sorted(cl.items()):
        if c == NS + 'Optimizer': continue
        with res.instance(c.split('::')[-1]):
            n += optimizer(res, P, c, ctor)
    res.floor('optimizers', n, 4)
    with res.instance('step'): step(res, P)
    with res.instance('scheduler'): scheduler(res, P)
    res.assumptions += ['Tensor operators are read as their elementwise definition (decided by C03)', 'AMSGrad keeps the maximum of the bias-corrected second moment']


class View(Opt):
    pass


def optimizer(res, P, cls, ctor):
    o = Opt(P, cls, ctor)
    if o.roles is None or len(o.roles) != len(ctor['ps']):
        raise Unk('no update rule known for ' + cls)
    I = Interp(P, opol(P, cls, o.bases))
    I.run(o.step_fn)
    res.fn(o.step_fn)
    res.fn(ctor)
    pfield = [f for f, r in o.field.items() if r == 'params']
    if not pfield: raise Unk('parameter list not stored')
    pfield = pfield[0]
    lid = [None]

    def elemfield(x):
        """field name of this->f[i]"""
        x = unhav(x)
        if x.op == 'elem' and x.a[0].op == 'fld' and x.a[0].a[0] == mk('deref', mk('this')): return x.a[0].a[1]
        return None

    def locfield(l):
        return elemfield(loc2term(l))

    def ispar(x):
        x = unhav(x)
        return x.op == 'deref' and elemfield(x.a[0]) == pfield

    def isgrad(x):
        x = unhav(x)
        return x.op == 'call' and x.a[0].endswith('::grad') and x.a[1] is not None and ispar(x.a[1])

    states = []

    def state(x):
        f = elemfield(x)
        if f is None or f == pfield: return None
        return f

    def role(x):
        x = unhav(x)
        while x.op in ('cast', 'tofloat', 'fcast') and isinstance(x.a[-1], T): x = x.a[-1]
        if x.op == 'fld' and x.a[0] == mk('deref', mk('this')): return o.field.get(x.a[1])
        return None
    o.isgrad, o.state, o.role, o.ispar = isgrad, state, role, ispar
    # writes of one iteration
    W = []
    for e in I.evs:
        if e.kind == 'write' and e.loops:
            f = locfield(e.objloc)
            if f is not None and f != pfield: W.append((e, f))
            elif ispar(loc2term(e.objloc)): W.append((e, 'p'))
        if e.kind == 'call' and e.fn.endswith(('Inplace', '_')) and e.loops:
            raise Unk('in-place operation ' + e.fn)
    if not [1 for e, f in W if f == 'p']: raise Unk('parameter update not recognised')
    sn = o.short
    flags = [r for r in o.roles if r in FLAGS]
    sw = [r for r in o.roles if r in SWITCH]
    names = flags + sw
    from itertools import product
    # which field plays which state: order of the definition, matched by trying
    seen = set()
    for bits, stp in product(product((False, True), repeat=len(names) + 1), steps(o, I)):
        m = dict(zip(names + ['defd'], bits))
        m['step'] = stp
        if sn != 'SGD' and not m['defd']: continue
        m['s0'] = m['defd']
        if sn == 'SGD' and not m['momentum'] and (m['nesterov'] or m['defd']): continue
        for has in (True, False):
            m['grad'] = has
            E = ModeEval(o, I, m)
            # mutators: values are terms over entry state, per iteration
            fin = {}
            for e, f in W:
                if E.guard(e): fin[f] = e
            mode = ', '.join('%s%s' % ('' if m[k] else 'no ', k) for k in names)
            if not has:
                for f, e in fin.items():
                    res.bad('%s/skip/%s' % (sn, 'param' if f == 'p' else 'state'), evloc(e), '%s changes %s of a parameter that has no gradient' % (sn, 'the value' if f == 'p' else 'the state'))
                if not fin: res.ok()
                continue
            want, wst = spec(sn, m)
            if stp:
                at = lambda f: rewrite(f, lambda x: C(stp) if x is t else None)
                want, wst = at(want), [at(x) for x in wst]
                mode += ', step %d' % stp
            if 'p' not in fin:
                res.bad(sn + '/update', loc_of(o.step_fn), '%s does not update the parameter (%s)' % (sn, mode))
                continue
            order = []
            for e, f in W:
                if f != 'p' and f in fin and f not in order: order.append(f)
            if len(order) != len(wst):
                res.bad(sn + '/states', loc_of(o.step_fn), '%s updates %d of its %d state tensors (%s)' % (sn, len(order), len(wst), mode))
                continue
            ok, why = match(o, E, fin, order, want, wst, sn)
            if ok is None: raise Unk(why)
            res.check(ok, '%s/formula' % sn, evloc(fin['p']), '%s does not apply its update rule (%s): %s' % (sn, mode, why), sample='%s (%s): p = %s' % (sn, mode, show(want)[:120]))
            # own tensors
            for f, e in fin.items():
                x = E.val(e.args[0])
                if f != 'p' and (isgrad(x) or ispar(x)):
                    res.bad(sn + '/alias', evloc(e), 'the state of %s becomes the parameter\'s own %s tensor: clearing or accumulating gradients changes the state (%s)' % (sn, 'gradient' if isgrad(x) else 'value', mode))
            for e in I.evs:
                if e.kind == 'write' and e.loops and isgrad(loc2term(e.objloc)) and E.guard(e):
                    res.bad(sn + '/grad', evloc(e), '%s changes the gradient of the parameter' % sn)
            if sn not in seen and m.get('amsgrad', True) and m.get('centered', True) and m.get('momentum', True):
                seen.add(sn)
                init(res, o, order, sn)
    return 1


def steps(o, I):
    """step numbers to distinguish: none (the rule is compared for a symbolic step number) unless a condition depends on it; then around every constant"""
    ks = set()
    dep = False

    def conds():
        for e in I.evs:
            for x, _ in e.gl: yield x
            for x in e.args:
                if isinstance(x, T):
                    for s in subterms(x):
                        if s.op == 'phi': yield s.a[0]
    for cnd in conds():
        sub = list(subterms(cnd))
        if not any(o.role(s) == 'step' for s in sub): continue
        dep = True
        for s in sub:
            k = cval(s)
            if isinstance(k, (int, float)) and not isinstance(k, bool) and 0 <= k < 1 << 30: ks |= {int(k) - 1, int(k), int(k) + 1, int(k) + 2}
    return sorted({1, 2, 3} | {k for k in ks if k >= 1}) if dep else [None]


def loc2term(l):
    from c_engine import locterm
    return locterm(l)


PERMS = {}


def match(o, E, fin, order, want, wst, sn):
    """do the final values agree with the rule for some assignment of fields to states"""
    from itertools import permutations
    last = None
    undec = None
    for perm in permutations(range(len(order))):
        names = {f: 's%d' % perm[i] for i, f in enumerate(order)}
        key = (sn, tuple(sorted(names)))
        try:
            cv = Conv1(o, E, names)
            r = cmp(cv, fin['p'].args[0], want)
            if not r[0]:
                last = last or ('parameter: ' + r[1])
                continue
            bad = None
            for f in order:
                r = cmp(cv, fin[f].args[0], wst[int(names[f][1:])])
                if not r[0]: bad = 'state: ' + r[1]
            if bad:
                last = bad
                continue
            E.o.names = names
            return True, ''
        except (alg.Undecided, Unk) as x:
            undec = str(x)
    if last is None: return None, undec
    if undec is not None: return None, undec
    return False, last


def cmp(cv, got, want):
    return alg.equal(cv.form(got), want, lambda x: x.a[0] if x.op == 'atom' else None)


class Conv1:
    """tensor expression of one parameter as a scalar term (all operations are elementwise)"""

    def __init__(self, o, E, names):
        self.o, self.E, self.names = o, E, names
        self.memo = {}

    def form(self, t):
        r = self.memo.get(t)
        if r is None: r = self.memo[t] = self.form_(t)
        return r

    def form_(self, t):
        t = self.E.val(t)
        o = self.o
        if o.isgrad(t): return g
        if o.ispar(t): return p
        f = o.state(t)
        if f is not None:
            if f not in self.names: raise Unk('state %s' % f)
            return v(self.names[f])
        r = o.role(t)
        if r == 'step' and self.E.mode.get('step'): return C(self.E.mode['step'])
        if r is not None: return ZERO if r in SWITCH and not self.E.mode[r] else v(r)
        if t.op == 'c': return t
        s = scal(t)
        if s is not t: return self.form(s)
        if t.op in ('cast', 'tofloat', 'fcast') and isinstance(t.a[-1], T): return self.form(t.a[-1])
        if t.op in ('+', '-', '*', '/', 'neg'): return mk(t.op, *[self.form(x) for x in t.a])
        if t.op == 'call':
            fn = t.a[0]
            n = fn.split('::')[-1]
            if fn.startswith('std::') or '::' not in fn or fn.startswith('__builtin'):
                sn = alg.stdfn(t)
                if sn: return call(sn, *[self.form(x) for x in t.a[2]])
            if fn.startswith('tinytorch::operator'):
                a = t.a[2]
                nm = n[8:]
                if nm in ('+', '-', '*', '/') and len(a) == 2: return mk(nm, self.form(a[0]), self.form(a[1]))
            op, args = asop(t)
            if op is None and fn.startswith((FN, 'tinytorch::Tensor::')): op, args = n, t.a[2]
            if op in ('clone', 'detach'): return self.form(args[0])
            if op == 'T.scalar': return self.form(args[0])
            sp = SPEC.get(op)
            if sp:
                k, fml = sp
                m = {}
                for i, nm in enumerate(['a', 'b', 'c'][:k]): m[v(nm)] = self.form(args[i])
                m[v('alpha')] = self.form(args[k]) if len(args) > k else ONE
                return rewrite(fml, lambda y: m.get(y) if y.op == 'atom' else None)
        raise Unk('value %s %s' % (t.op, repr(t)[:600]))


def init(res, o, order, sn):
    """initial state: zero (or the configured accumulator), one per parameter, of the parameter's shape"""
    I = o.CI
    for f in order:
        ws = [e for e in I.evs if e.kind in ('write', 'call') and e.loops and e.objloc is not None and field_root(e.objloc) == f]
        rs = [e for e in I.evs if e.kind == 'call' and e.fn.split('::')[-1] in ('resize', 'assign', 'reserve', 'push_back', 'emplace_back') and e.objloc is not None and field_root(e.objloc) == f]
        want = None if sn == 'SGD' else 'initAcc' if sn == 'Adagrad' else 0
        if want is None:
            res.check(bool(rs), sn + '/init', loc_of(o.ctor), 'the state list of %s is never sized' % sn)
            continue
        val = None
        bad = None
        for e in ws:
            if e.kind == 'call':
                if e.fn.endswith(('fillZero_', 'zero_')): val = ZERO
                elif e.fn.endswith(('::fill_', '::fill')): val = scal(e.args[0])
                elif e.fn.endswith('fillOne_'): val = ONE
                elif e.fn.split('::')[-1] in ('push_back', 'emplace_back'): val = tval(e.args[0]) or val
            else:
                x = tval(e.args[0])
                if x is not None: val = x
                elif e.args[0].op == 'call' and e.args[0].a[0].split('::')[-1] in ('empty', 'emptyLike'): val = val
        if val is None:
            if not ws:
                res.bad(sn + '/init', loc_of(o.ctor), 'the state of %s is never given an initial value' % sn)
                continue
            raise Unk('initial state of ' + sn)
        r = o.rolep.get(val)
        c = cval(val)
        if want == 0: res.check(c == 0, sn + '/init', loc_of(o.ctor), 'the state of %s starts at %s instead of 0' % (sn, show(val)), sample='%s state starts at 0' % sn)
        else: res.check(r == want, sn + '/init', loc_of(o.ctor), 'the state of %s starts at %s instead of %s' % (sn, show(val), want))


def tval(x):
    if x.op != 'call': return None
    n = x.a[0].split('::')[-1]
    if n in ('zeros', 'zerosLike'): return ZERO
    if n in ('ones', 'onesLike'): return ONE
    if n in ('full', 'fullLike'): return scal(x.a[2][1])
    return None


def field_root(l):
    while l.op in ('E', 'D', 'F'):
        if l.op == 'F' and l.a[0].op == 'D' and l.a[0].a[0].op == 'this': return l.a[1]
        if l.op == 'D': return None
        l = l.a[0]
    return None


def step(res, P):
    r = P.by_name[NS + 'Optimizer::step'][0]
    I = Interp(P)
    I.run(r)
    res.fn(r)
    ds = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::doStep')]
    if not res.check(len(ds) == 1 and not ds[0].guard, 'step/do', loc_of(r), 'step does not run the update exactly once'): return
    d = ds[0]
    off = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'G' and 'radEnabled' in str(e.objloc.a[0])]
    tmp = [e for e in I.evs if e.kind in ('write', 'init') and e.objloc.op == 'F' and str(e.objloc.a[0]).startswith(("('L', 'tmp", 'tmp'))]
    live = [e for e in off if e.seq < d.seq]
    res.check(bool(live) and cval(live[-1].args[0]) == 0, 'step/nograd', loc_of(r), 'the update is recorded for differentiation: no NoGradGuard is active while it runs', sample='NoGradGuard before doStep')
    inc = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[0].op == 'D']
    good = [e for e in inc if any(cval(x) == 1 for x in e.args[0].a if isinstance(x, T)) and e.args[0].op == '+']
    res.check(len(good) == 1 and good[0].seq < d.seq and not good[0].guard, 'step/count', loc_of(r), 'the step counter is not advanced by one before the update', sample='step counter advanced before update')
    r = P.by_name[NS + 'Optimizer::zeroGrad'][0]
    I = Interp(P, opaque('tinytorch::Tensor::'))
    I.run(r)
    res.fn(r)
    z = [e for e in I.evs if e.kind == 'call' and e.fn == 'tinytorch::Tensor::zeroGrad']
    ok = bool(z) and all(not [l for l in e.gl if not loopcond(l[0])] for e in z)
    res.check(ok, 'zeroGrad', loc_of(r), 'zeroGrad does not clear the gradient of every parameter', sample='zeroGrad clears every parameter')
    for nm in ('getLr', 'setLr'):
        r = P.by_name[NS + 'Optimizer::' + nm][0]
        I = Interp(P)
        rets = I.run(r)
        res.fn(r)
        if nm == 'getLr': f1 = rets[0][1].a[1] if rets[0][1].op == 'fld' else None
        else:
            w = [e for e in I.evs if e.kind == 'write']
            f2 = w[0].objloc.a[1] if len(w) == 1 and w[0].objloc.op == 'F' and w[0].args[0] == mk('param', 0, r['ps'][0]['n']) else None
            res.check(f1 is not None and f1 == f2, 'lr', loc_of(r), 'setLr does not change the learning rate that getLr returns', sample='getLr/setLr')
    # every loop over the parameters visits all of them
    for c in classes(P):
        pass


def scheduler(res, P):
    SN = NS + 'lr_scheduler::'
    r = P.by_name[SN + 'Scheduler::step'][0]
    I = Interp(P)
    I.run(r)
    res.fn(r)
    gl = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::getLr')]
    sets = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[1] == 'lr_']
    setc = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::setLr')]
    tgt = sets or setc
    if not gl: raise Unk('getLr')
    res.check(len(tgt) == 1 and not tgt[0].guard and tgt[0].args[0].op in ('call', 'fld') and same_lr(tgt[0].args[0], gl), 'sched/set', loc_of(r), 'a scheduler step does not give the optimizer the rate it computed', sample='optimizer.lr = getLr()')
    eps = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and 'Epoch' in e.objloc.a[1]]
    inc = [e for e in eps if e.args[0].op == '+']
    oth = [e for e in eps if e.args[0].op != '+']
    if not inc: raise Unk('epoch counter')
    res.check(all(e.seq < gl[-1].seq for e in eps) and guard_cover([e.guard for e in eps]), 'sched/epoch', loc_of(r), 'the epoch is not advanced before the rate is computed')
    for e in inc: res.check(any(cval(x) == 1 for x in e.args[0].a), 'sched/inc', evloc(e), 'the epoch advances by more than one')
    # StepLR
    r = P.by_name[SN + 'StepLR::getLr'][0]
    ct = [q for q in P.funcs.values() if q.get('cls') == SN + 'StepLR' and q.get('ctor') and len(q['ps']) >= 3][0]
    J = Interp(P)
    J.run(ct)
    fld = {}
    for e in J.evs:
        if e.kind == 'init' and e.objloc.op == 'F' and e.args[0].op == 'param': fld[e.objloc.a[1]] = e.args[0].a[0]
    I = Interp(P, Policy(virt=None))
    rets = I.run(r)
    res.fn(r)

    def cls(t):
        u = unhav(t)
        if u.op == 'fld':
            if fld.get(u.a[1]) == 1: return 'size'
            if fld.get(u.a[1]) == 2: return 'gamma'
            if u.a[1] == 'lr_': return 'lr'
            if 'Epoch' in u.a[1]: return 'epoch'
        if u.op == 'call' and u.a[0].endswith('::getLr'): return 'lr'
        return None

    def ev(t, env):
        """(conditions over {epoch = 0, size divides epoch}); returns bool or product of lr/gamma powers"""
        c = cls(t)
        if c in ('lr', 'gamma'): return env[c]
        if t.op == 'c': return t.a[0]
        if t.op == 'not': return not ev(t.a[0], env)
        if t.op == 'and': return ev(t.a[0], env) and ev(t.a[1], env)
        if t.op == 'or': return ev(t.a[0], env) or ev(t.a[1], env)
        if t.op in ('==', '<', '<='):
            x, y = t.a
            ex = [cls(z) == 'epoch' for z in (x, y)]
            md = [z.op == '%' and cls(z.a[0]) == 'epoch' and cls(z.a[1]) == 'size' for z in (x, y)]
            k = cval(y) if ex[0] or md[0] else cval(x)
            if (any(ex) or any(md)) and k == 0:
                val = 0 if env['E0' if any(ex) else 'M0'] else 1
                a, b = (val, 0) if ex[0] or md[0] else (0, val)
                return a == b if t.op == '==' else a < b if t.op == '<' else a <= b
        if t.op == '%' and cls(t.a[0]) == 'epoch' and cls(t.a[1]) == 'size': return not env['M0']
        if cls(t) == 'epoch': return not env['E0']
        if t.op == '*': return ev(t.a[0], env) * ev(t.a[1], env)
        if t.op in ('cast', 'tofloat', 'fcast'): return ev(t.a[-1], env)
        if t.op == 'phi': return ev(t.a[1], env) if ev(t.a[0], env) else ev(t.a[2], env)
        raise Unk('StepLR ' + show(t)[:80])
    from fractions import Fraction
    for E0, M0, nm in ((True, True, 'epoch 0'), (False, True, 'a multiple of the step size'), (False, False, 'other epochs')):
        env = dict(E0=E0, M0=M0, lr=alg.atom('lr'), gamma=alg.atom('gamma'))
        got = [ev(x, env) for s, x, n in rets if all(bool(ev(a, env)) == b for a, b in s.gl)]
        want = env['lr'] * env['gamma'] if M0 and not E0 else env['lr']
        if len(got) != 1: raise Unk('StepLR paths')
        res.check(alg.same(got[0], want), 'sched/StepLR', loc_of(r), 'StepLR at %s gives the rate %s' % (nm, alg.pr(got[0])), sample='StepLR at %s' % nm)


def same_lr(x, gl):
    return x in [e.ret for e in gl] or (x.op == 'fld' and 'ast' in x.a[1])
