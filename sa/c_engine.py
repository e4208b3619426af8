"""Autograd engine: what is recorded, the order the graph is replayed in, gradient accumulation, guards and hooks."""
import re
from itertools import product
from model import *
from c_grad import FN, TENS, CTX

AM = 'tinytorch::AutogradMeta::'


def asserted(I):
    """literals that hold because the other side traps"""
    out = set()
    for e in I.evs:
        if e.kind == 'trap' and e.gl:
            t, p = e.gl[-1]
            out.add((t, not p))
    return out


def locterm(l):
    """term read through a location in the entry state"""
    if l.op == 'D': return mk('deref', unhav(l.a[0]))
    if l.op == 'F': return mk('fld', locterm(l.a[0]), l.a[1])
    if l.op == 'E': return mk('elem', locterm(l.a[0]), unhav(l.a[1]))
    return l


def unhav(t):
    """drop loop-carried and mutation history of heap reads"""
    def f(x):
        if x.op == 'hav' and isinstance(x.a[2], T) and x.a[2].op in ('D', 'F', 'E'): return rewrite(mk('fld', locterm(x.a[2]), x.a[3]) if len(x.a) > 3 else locterm(x.a[2]), f)
        if x.op in ('mut',): return x.a[0]
        if x.op == 'phi' and x.a[1] is x.a[2]: return x.a[1]
        if x.op == 'call': return mk('call', x.a[0], x.a[1], x.a[2], 0)
        if x.op == 'rec': return x.a[0]
        return None
    return rewrite(t, f)


def chain(l, t):
    return unhav(t)


class Eval:
    """boolean / list evaluation of extracted terms under an assignment of their atomic conditions"""

    def __init__(self, atoms):
        self.atoms = atoms

    def b(self, t):
        if t in self.atoms: return self.atoms[t]
        op = t.op
        if op == 'c': return bool(t.a[0])
        if op == 'null': return False
        if op in ('newp', 'new', 'addr', 'str'): return True
        if op == 'not': return not self.b(t.a[0])
        if op == 'and': return self.b(t.a[0]) and self.b(t.a[1])
        if op == 'or': return self.b(t.a[0]) or self.b(t.a[1])
        if op == 'phi': return self.b(t.a[1]) if self.b(t.a[0]) else self.b(t.a[2])
        if op == '==' : return self.b(t.a[0]) == self.b(t.a[1])
        if op == 'inrange': return True
        raise Unk(show(t)[:80])

    def v(self, t):
        while t.op == 'phi': t = t.a[1] if self.b(t.a[0]) else t.a[2]
        return t

    def lst(self, t):
        t = self.v(t)
        if t.op == 'app': return self.lst(t.a[0]) + [self.v(t.a[1])]
        if t.op == 'mut': return self.lst(t.a[0])
        if t.op == 'new' and t.a[0].startswith('std::vector<') and not t.a[1]: return []
        if t.op == 'list': return [self.v(x) for x in t.a[0]]
        raise Unk('list ' + show(t)[:80])

    def guard(self, gl, skip):
        return all(self.b(t) == p for t, p in gl if (t, p) not in skip)


class Unk(Exception):
    pass


def nv(t):
    def f(x):
        if x.op == 'call': return mk('call', x.a[0], x.a[1], x.a[2], 0)
        if x.op == 'mut' and x.a[0].op in ('param', 'call'): return x.a[0]
        return None
    return rewrite(t, f)


def check_engine(res):
    P = res.p
    O = Ops(P)
    res.rule = ('Function::apply records inputs and edges exactly when gradients are enabled and an input requires them; the graph is replayed in dependency order with every edge counted once; '
                'gradients accumulate into tensors of their own; guards, hooks, context queue and seeds behave as documented')
    n = 0
    for r in sorted(P.funcs.values(), key=lambda r: r['u']):
        if r['n'] == 'apply' and r['fn'].startswith('tinytorch::Function<') and r.get('cls', '').startswith('tinytorch::Function'):
            with res.instance(r['fn']):
                n += apply_one(res, P, r)
    res.floor('apply_instances', n, 45)
    for name, fn in (('addGrad', add_grad), ('seed', seeding), ('graph', graph), ('leaf', leaf), ('guard', nograd), ('context', context), ('meta', meta), ('hooks', hooks), ('assign', compound)):
        with res.instance(name): fn(res, P)


def apol(P):
    return Policy(opaque=lambda rec: rec['fn'].startswith(('tinytorch::Tensor::',)) or rec.get('_disp') or rec['fn'].startswith(FN))


def apply_one(res, P, r):
    name = r['fn'].split('Function<')[1].split('>')[0].split('::')[-1]
    I = Interp(P, apol(P))
    rets = I.run(r)
    res.fn(r)
    tens = [mk('param', i, p['n']) for i, p in enumerate(r['ps']) if strip_cvref(p['t']) == TENS]
    lists = [p for p in r['ps'] if 'TensorPair' in p['t'] or 'ArrayView<tinytorch::Tensor>' in p['t'] or 'std::pair<tinytorch::Tensor' in p['t']]
    fcalls = [e for e in I.evs if e.kind == 'call' and e.fn.startswith(FN) and e.fn.endswith('::forward')]
    key = 'apply/' + name
    where = loc_of(r)
    if not res.check(len(fcalls) == 1 and not fcalls[0].guard - {x for x in fcalls[0].guard if x in asserted(I)}, key + '/forward', where, 'applying %s does not run its forward exactly once on every path' % name): return 1
    fc = fcalls[0]
    args = [nv(a) for a in fc.args[1:]]
    want = [mk('param', i, p['n']) for i, p in enumerate(r['ps'])]
    res.check(args == want or any(a.op not in ('param',) for a in args), key + '/args', evloc(fc), 'arguments of %s reach forward as (%s)' % (name, ', '.join(show(a) for a in args)))
    if lists:
        res.counts['apply_with_lists'] += 1
        return 1
    en = mk('glob', 'tinytorch::NoGradGuard::gradEnabled')
    gterms = [t for e in I.evs for t, p in e.gl for s in subterms(t) if s.op == 'glob' and 'radEnabled' in s.a[0] for t in [s]]
    en = gterms[0] if gterms else None
    if tens and not res.check(en is not None, key + '/enabled', where, '%s records its inputs without asking whether gradients are enabled' % name): return 1
    D = [mk('call', 'tinytorch::Tensor::defined', t, (), 0) for t in tens]
    Q = [mk('call', 'tinytorch::Tensor::requiresGrad', t, (), 0) for t in tens]
    skip = {(nv(t), p) for t, p in asserted(I)}
    ctxarg = nv(fc.args[0])
    sets = [e for e in I.evs if e.kind == 'call' and e.fn == 'tinytorch::Tensor::setRequiresGrad']
    nexts = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[1] == 'nextFunctions']
    rtype = strip_cvref(r['ret'])
    nout = 1 if rtype == TENS else 2 if 'pair<tinytorch::Tensor' in rtype else 0
    atoms = ([en] if en is not None else []) + D + Q
    if len(atoms) > 11: raise Unk('too many inputs')
    for bits in product((False, True), repeat=len(atoms)):
        m = dict(zip(atoms, bits))
        E = Eval(m)
        on = [t for t, d, q in zip(tens, D, Q) if m[d] and m[q]]
        need = bool(on) and m[en]
        case = '%s, inputs requiring gradients: %s' % ('gradients enabled' if en is not None and m[en] else 'gradients disabled', [tens.index(t) + 1 for t in on] or 'none')
        c = E.v(ctxarg)
        has = E.b(c)
        if has != need:
            res.bad(key + '/context', where, '%s %s an autograd context (%s)' % (name, 'gets' if has else 'does not get', case))
            return 1
        recorded = [e for e in sets if E.guard([(nv(t), p) for t, p in e.gl], skip)]
        if need:
            s = E.v(c)
            ctor = [x for x in subterms(s) if x.op == 'newp' and 'AutogradContext' in x.a[0]]
            if ctor:
                saved = [nv(x) for x in E.lst(ctor[0].a[1][0])]
                if saved != tens:
                    res.bad(key + '/saved', where, '%s saves inputs (%s) instead of its tensor arguments in order (%s)' % (name, ', '.join(map(show, saved)), ', '.join(map(show, tens))))
                    return 1
            if nout and rtype != 'void':
                good = [e for e in recorded if cval(e.args[0])]
                if len(good) < nout:
                    res.bad(key + '/output', where, '%s does not mark its result as requiring a gradient (%s)' % (name, case))
                    return 1
                for e in good:
                    fnv = E.v(nv(e.args[1])) if len(e.args) > 1 else None
                    if fnv is None or fnv.op == 'null' or (fnv.op != 'newp' and not E.b(fnv)):
                        res.bad(key + '/fn', evloc(e), 'the result of %s is not attached to its backward function' % name)
                        return 1
                nx = [e for e in nexts if E.guard([(nv(t), p) for t, p in e.gl], skip)]
                if not nx:
                    res.bad(key + '/edges', where, '%s is not linked to the functions of its inputs (%s)' % (name, case))
                    return 1
                got = [nv(x) for x in E.lst(nv(nx[-1].args[0]))]
                exp = [mk('call', 'tinytorch::Tensor::gradFn', t, (), 0) for t in on]
                if sorted(got) != sorted(exp):
                    res.bad(key + '/edges', evloc(nx[-1]), '%s is linked to (%s) instead of the functions of exactly the inputs that require gradients (%s)' % (name, ', '.join(map(show, got)), ', '.join(map(show, exp))))
                    return 1
        else:
            for e in recorded:
                if cval(e.args[0]) != 0:
                    res.bad(key + '/output', evloc(e), '%s marks its result as requiring a gradient although none is recorded (%s)' % (name, case))
                    return 1
    res.ok('%s: %d cases' % (key, 2 ** len(atoms)))
    return 1


def run(P, name, pol=None, pick=None):
    rs = [r for r in P.by_name.get(name, []) if not pick or pick(r)]
    if not rs: raise Broken('function %s not found' % name)
    out = []
    for r in rs:
        I = Interp(P, pol or Policy(opaque=lambda rec: rec['fn'].startswith('tinytorch::Tensor::') or rec.get('_disp') or rec['fn'].startswith('tinytorch::op::')))
        out.append((r, I, I.run(r)))
    return out


THIS = mk('deref', mk('this'))


def gradf(t):
    """is t the grad_ field of an AutogradMeta: returns the object term"""
    t = unhav(t)
    return t.a[0] if t.op == 'fld' and t.a[1] == 'grad_' else None


def contributions(I, obj=THIS):
    """effects on obj.grad_: list of (event, kind, value) kind in add/set"""
    out = []
    for e in I.evs:
        if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[1] == 'grad_':
            out.append((e, 'set', e.args[0]))
        elif e.kind == 'call' and e.fn in ('tinytorch::op::addInplace',) and gradf(e.args[0]) is not None:
            out.append((e, 'add', e.args[1]))
        elif e.kind == 'call' and e.fn.startswith('tinytorch::op::') and e.fn.endswith('Inplace') and gradf(e.args[0]) is not None:
            out.append((e, 'other', e.args[1] if len(e.args) > 1 else None))
        elif e.kind == 'call' and e.obj is not None and e.fn == 'tinytorch::Tensor::operator+=' and gradf(e.obj) is not None:
            out.append((e, 'add', e.args[0]))
    return out


def isnum(t, v):
    from c_grad import scal
    t = scal(t)
    return cval(t) is not None and abs(cval(t) - v) < 1e-12


def accumulate_ok(res, I, key, where, g, label):
    """on the analysed paths grad_ becomes grad_ + g, stored in a tensor that is not g's"""
    A = asserted(I)
    cs = contributions(I)
    dl = mk('call', 'tinytorch::Tensor::defined', mk('fld', THIS, 'grad_'), (), 0)
    have, fresh = [], []
    for e, k, v in cs:
        gl = [(unhav(t), p) for t, p in e.gl if (t, p) not in A]
        v0 = unhav(v) if v is not None else None
        if k == 'add' or (k == 'set' and v0.op == 'call' and v0.a[0] in ('tinytorch::op::add', 'tinytorch::Tensor::operator+')):
            if k == 'set':
                ops = ([v0.a[1]] if v0.a[1] is not None else []) + list(v0.a[2])
                ok = gradf(ops[0]) is not None and unhav(ops[1]) is g or (gradf(ops[1]) is not None and unhav(ops[0]) is g)
                al = ops[2] if len(ops) > 2 else C(1)
            else:
                ok = v0 is g
                al = e.args[2] if len(e.args) > 2 else C(1)
            res.check(ok, key + '/operand', evloc(e), '%s adds %s instead of the delivered gradient' % (label, show(v0)[:80]))
            res.check(isnum(al, 1), key + '/scale', evloc(e), '%s scales the delivered gradient by %s' % (label, show(al)))
            have.append(frozenset(gl))
        elif k == 'set':
            v1 = v0
            while v1.op == 'new' and v1.a[0] == TENS and len(v1.a[1]) == 1: v1 = v1.a[1][0]
            raw = v1 is g
            if raw and (dl, False) in gl:
                res.bad(key + '/alias', evloc(e), '%s keeps the delivered gradient\'s own tensor: a later accumulation changes the caller\'s tensor' % label)
            elif raw or (dl, False) not in gl:
                if raw or v1.op in ('call', 'param'):
                    res.bad(key + '/overwrite', evloc(e), '%s replaces the accumulated gradient' % label)
            elif v1.op == 'call' and contains(v1, g):
                ok = v1.a[0].split('::')[-1] in ('clone',)
                if ok: res.ok()
                else: raise Unk('initial gradient ' + show(v1)[:80])
            fresh.append(frozenset(gl))
        else:
            res.bad(key + '/op', evloc(e), '%s applies %s to the accumulated gradient' % (label, e.fn))
    # on every path exactly one contribution
    for p in (True, False):
        paths = [g_ for g_ in have + fresh if (dl, not p) not in g_]
        res.check(guard_cover(paths, frozenset({(dl, p)})), key + '/cover%d' % p, where, '%s loses the delivered gradient on a path on which %s gradient exists' % (label, 'a' if p else 'no'), sample=key)
        for i, a in enumerate(paths):
            for b in paths[:i]:
                if not any((t, not q) in b for t, q in a):
                    res.bad(key + '/twice', where, '%s adds the delivered gradient twice' % label)


def add_grad(res, P):
    for r, I, rets in run(P, AM + 'addGrad'):
        res.fn(r)
        g = mk('param', 0, r['ps'][0]['n'])
        accumulate_ok(res, I, 'addGrad' + ('&&' if r['ps'][0]['t'].endswith('&&') else '&'), loc_of(r), g, 'addGrad')
    for r, I, rets in run(P, AM + 'setGrad'):
        res.fn(r)
        g = mk('param', 0, r['ps'][0]['n'])
        w = [e for e, k, v in contributions(I)]
        res.check(len(w) == 1 and not w[0].guard and unhav(w[0].args[0]) is g, 'setGrad', loc_of(r), 'setGrad does not store the given gradient unconditionally')
    for r, I, rets in run(P, AM + 'zeroGrad'):
        res.fn(r)
        z = [e for e in I.evs if e.kind == 'call' and e.fn.split('::')[-1] in ('fillZero_', 'fill', 'fill_', 'fillOne_') and (gradf(e.obj if e.obj is not None else e.args[0]) is not None or (e.obj is not None and e.objloc is not None and e.objloc.op == 'F' and e.objloc.a[1] == 'grad_'))]
        zs = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[1] == 'grad_']
        if not z:
            zz = [e for e in zs if unhav(e.args[0]).op == 'call' and unhav(e.args[0]).a[0].split('::')[-1] in ('zeros', 'zerosLike')]
            if not zz and zs: raise Unk('zeroGrad shape')
            res.check(bool(zz) and guard_cover([e.guard for e in zz]), 'zeroGrad', loc_of(r), 'zeroGrad does not zero the gradient')
        else:
            for e in z:
                val = C(0) if e.fn.endswith('fillZero_') else C(1) if e.fn.endswith('fillOne_') else (e.args[1] if e.obj is None else e.args[0])
                res.check(isnum(val, 0), 'zeroGrad/value', evloc(e), 'zeroGrad fills with %s' % show(val))
            res.check(guard_cover([e.guard for e in z]), 'zeroGrad/cover', loc_of(r), 'zeroGrad leaves the gradient unchanged on some path', sample='zeroGrad')


def builders(P):
    """methods of AutogradMeta that walk the recorded edges"""
    out = []
    for r in P.funcs.values():
        if r.get('cls') == 'tinytorch::AutogradMeta' and any(n.get('k') == 'Member' and n.get('n', '').split('::')[-1] == 'nextFunctions' for n in walk(r['body'])): out.append(r)
    return out


def seeding(res, P):
    bs = {r['u'] for r in builders(P)}
    pol = Policy(opaque=lambda rec: rec['fn'].startswith('tinytorch::Tensor::') or rec.get('_disp') or rec['u'] in bs)
    (r, I, rets), = run(P, AM + 'backward', pol)[:1]
    res.fn(r)
    A = asserted(I)
    key = 'backward'
    g = mk('param', 0, r['ps'][0]['n'])
    calls = [e for e in I.evs if e.kind in ('call', 'vcall', 'icall') and e.fn == 'tinytorch::FunctionBase::backward']
    if not res.check(len(calls) == 1 and calls[0].loops, key + '/run', loc_of(r), 'backward does not run the recorded functions in one loop'): return
    c = calls[0]

    def plain(e):
        return [(t, p) for t, p in e.gl if (t, p) not in A and t.op != 'inrange' and (unhav(t), p) not in entry]
    entry = set()
    for s in I.evs:
        pass
    # the run loop: every element, in order, with its owner's gradient
    o = unhav(c.obj)
    if o.op == 'deref': o = o.a[0]
    elem = o
    extra = []
    for t, p in c.gl:
        u = unhav(t)
        if (t, p) in A or t.op == 'inrange': continue
        if not any(s.op == 'elem' for s in subterms(u)) and not any(s.op == 'hav' for s in subterms(u)): continue
        if u is elem: continue
        extra.append((t, p))
    res.check(not extra, key + '/skip', evloc(c), 'backward runs a recorded function only if %s' % show(extra[0][0])[:80] if extra else '')
    arg = unhav(c.args[0])
    if elem.op == 'elem' and elem.a[0].op == 'fld' and elem.a[0].a[1] == 'backwardGraph_':
        ob = gradf(arg)
        own = mk('deref', mk('fld', mk('deref', elem), 'weakOwner'))
        if ob is not None: res.check(ob is own, key + '/owner', evloc(c), 'a recorded function is run with the gradient of %s instead of its own result' % show(ob)[:100], sample='run(fn, owner(fn).grad)')
        else: res.check(arg is not g, key + '/owner', evloc(c), 'every recorded function is run with the initial gradient')
        inr = [t for t, p in c.gl if t.op == 'inrange' and p]
        if not inr:
            li = I.loopinfo.get(c.loops[-1])
            idx = elem.a[1]
            if li is not None and idx.op == 'hav':
                i0, nx = li['init'].get(idx.a[2]), li['next'].get(idx.a[2])
                res.check(i0 is None or cval(i0) in (0, None), key + '/order', evloc(c), 'the replay of the graph does not start at its first function')
                if nx is not None and nx.op == '-': res.bad(key + '/order', evloc(c), 'the recorded functions are run in reverse dependency order')
    # seeding: grad_ += g exactly once before the loop; earlier resets concern non-leaf owners only
    cs = [(e, k, v) for e, k, v in contributions(I)]
    seed = [(e, k, v) for e, k, v in cs if not e.loops]
    resets = [(e, k, v) for e, k, v in cs if e.loops and k == 'set']
    res.check(bool(seed) and all(e.seq < c.seq for e, k, v in seed), key + '/seed', loc_of(r), 'the initial gradient is not added before the functions run')
    class View:
        evs = [e for e in I.evs if not e.loops]
    J = View()
    sub = [e for e in J.evs if not (e.kind == 'trap')]
    accumulate_ok(res, FilterI(I), key + '/seed', loc_of(r), g, 'backward')
    # non-leaf gradients belong to one pass
    good = False
    for e, k, v in resets:
        v0 = unhav(v)
        if not (v0.op == 'new' and v0.a[0] == TENS and not v0.a[1]):
            continue
        lits = [(t, p) for t, p in e.gl if (t, p) not in A and t.op != 'inrange']
        leafl = [(t, p) for t, p in lits if is_leaf_test(t)]
        if any(p for t, p in leafl): res.bad(key + '/leafgrad', evloc(e), 'backward discards the accumulated gradients of leaf tensors')
        elif not leafl: res.bad(key + '/leafgrad', evloc(e), 'backward discards accumulated gradients without testing whether the tensor is a leaf')
        elif e.seq < min([s[0].seq for s in seed] or [0]):
            extra = [t for t, p in lits if not is_leaf_test(t) and restricting(t)]
            if not extra: good = True
    res.check(good, key + '/stale', loc_of(r), 'gradients of intermediate tensors from an earlier pass are not cleared: they are propagated again', sample='non-leaf gradients cleared before seeding')


class FilterI:
    """events of a run outside loops"""

    def __init__(self, I):
        self.evs = [e for e in I.evs if not e.loops]
        self.evs = [strip_ev(e) for e in self.evs]


class strip_ev:
    def __init__(self, e):
        self.e = e
        for k in ('kind', 'fn', 'u', 'obj', 'objloc', 'args', 'ret', 'node', 'rec', 'loops', 'seq', 'sig'): setattr(self, k, getattr(e, k))
        dl = 'defined'
        self.gl = tuple((t, p) for t, p in e.gl if gdef(t)) if e.kind != 'trap' else e.gl
        self.guard = frozenset(self.gl)

    def line(self): return self.e.line()


def restricting(t):
    """a condition on some other property of the owner (not: does it exist, has it a gradient at all, is it the root)"""
    names = set()
    for s in subterms(t):
        if s.op == 'fld': names.add(str(s.a[1]).split('::')[-1])
        elif s.op == 'call' and s.a[0].startswith('tinytorch::'): names.add(re.sub('<.*', '', s.a[0]).split('::')[-1])
    return bool(names - {'grad_', 'gradFn_', 'defined', 'weakOwner', 'owner', 'isLeaf', 'backwardGraph_', 'impl_', 'grad'})


def gdef(t):
    u = unhav(t)
    return u.op == 'call' and u.a[0] == 'tinytorch::Tensor::defined' and gradf(u.a[1]) is not None


def is_leaf_test(t):
    return any(s.op == 'typeid' or (s.op == 'call' and s.a[0].endswith('isLeaf')) or (s.op == 'call' and 'typeid' in s.a[0]) or s.op == 'x' and 'Typeid' in str(s.a[0]) or 'typeid' in s.op for s in subterms(t))


def graph(res, P):
    bs = builders(P)
    if not bs: raise Unk('no builder')
    for r in bs:
        I = Interp(P, Policy(opaque=lambda rec: rec['fn'].startswith('tinytorch::Tensor::') or rec.get('_disp')))
        I.run(r)
        res.fn(r)
        A = asserted(I)
        key = 'graph'
        incs, decs, pushes, outs = [], [], [], []

        def edge(t):
            u = unhav(t)
            return any(s.op == 'elem' and s.a[0].op == 'fld' and s.a[0].a[1] == 'nextFunctions' for s in subterms(u))
        for e in I.evs:
            if e.kind == 'write' and e.loops and e.objloc is not None and 'operator[]' in str(e.objloc):
                ls = e.objloc
                d = lin(e.args[0])
                if d is not None and edge(e.args[0]):
                    (incs if d > 0 else decs).append((e, d))
            if e.kind == 'call' and e.obj is not None and e.fn.split('::')[-1] in ('push_back', 'push', 'emplace_back', 'push_front', 'emplace'):
                if 'backwardGraph_' in str(e.objloc) or 'backwardGraph_' in show(e.obj): outs.append(e)
                elif e.args and edge(e.args[0]): pushes.append(e)

        # maintaining loop = the one (outermost loop id) in which the out list grows
        if not outs:
            raise Unk('result list not recognised')
        relloop = outs[0].loops[0] if outs[0].loops else None
        if not incs or not decs: raise Unk('edge counting not recognised')

        def cond(e):
            return [(t, p) for t, p in e.gl if (t, p) not in A and t.op != 'inrange' and not qempty(t)]
        for e, d in incs:
            if e.loops[0] == relloop: continue
            res.check(d == 1, key + '/count', evloc(e), 'an edge of the graph is counted %s times' % d)
            x = cond(e)
            res.check(not x, key + '/count', evloc(e), 'an edge of the graph is counted only if %s' % show(x[0][0])[:100] if x else '', sample='every edge counted once')
        for e, d in decs:
            x = cond(e)
            res.check(d == -1 and not x, key + '/release', evloc(e), 'an edge of the graph is released only if %s' % show(x[0][0])[:100] if x else 'an edge is released %s times' % -d)
        rel = [e for e in pushes if e.loops and e.loops[0] == relloop]
        dis = [e for e in pushes if e.loops and e.loops[0] != relloop]
        res.check(bool(dis), key + '/discover', loc_of(r), 'functions reachable through edges are not discovered')
        for e in dis:
            x = cond(e)
            res.check(bool(x), key + '/discover-once', evloc(e), 'a function is visited once per edge: its own edges are counted several times')
        for e in rel:
            x = cond(e)
            z = [t for t, p in x if p and (t.op == '==' and any(cval(s) == 0 for s in t.a) or (t.op == '<=' and cval(t.a[1]) == 0) or (t.op == '<' and cval(t.a[1]) == 1))] + [t for t, p in x if not p and 'operator[]' in show(t)]
            res.check(bool(z), key + '/ready', evloc(e), 'a function is scheduled before all functions that feed it gradients have run', sample='scheduled when all consumers ran')
        for e in outs:
            x = cond(e)
            res.check(not x, key + '/emit', evloc(e), 'a ready function is emitted only if %s' % show(x[0][0])[:80] if x else '')
        # counting loop and release loop are distinct, counting first
        cl = {e.loops[0] for e, d in incs}
        dl = {e.loops[0] for e, d in decs}
        if len(cl) == 1 and len(dl) == 1:
            res.check(cl != dl, key + '/phases', loc_of(r), 'edges are released in the same pass that counts them')


def qempty(t):
    return t.op == 'call' and t.a[0].split('::')[-1] == 'empty' or (t.op in ('==', '<', '<=') and any(s.op == 'call' and s.a[0].split('::')[-1] == 'size' for s in subterms(t)))


def lin(t):
    """t = old + d -> d"""
    if t.op == '+' and any(cval(x) is not None for x in t.a): return [cval(x) for x in t.a if cval(x) is not None][0]
    if t.op == '-' and cval(t.a[1]) is not None: return -cval(t.a[1])
    return None


def leaf(res, P):
    (r, I, rets), = run(P, 'tinytorch::FuncLeaf::backward')[:1]
    res.fn(r)
    A = asserted(I)
    calls = [e for e in I.evs if e.kind == 'icall' and e.loops]
    key = 'leaf'
    res.check(len(calls) >= 1, key + '/hooks', loc_of(r), 'hooks of a leaf are not run when its gradient is complete', sample='hooks run at the leaf')
    g = mk('param', 0, r['ps'][0]['n'])
    w = [e for e, k, v in contributions(I)]
    for e in w:
        res.check(unhav(e.args[0]) is g, key + '/grad', evloc(e), 'the gradient of a leaf becomes %s' % show(unhav(e.args[0]))[:80])
    for e in calls:
        if len(e.args) == 2:
            a1 = e.args[1]
            if w: res.check(unhav(a1) is g or gradf(a1) is not None, key + '/hook-arg', evloc(e), 'a hook is run with %s instead of the gradient' % show(a1)[:80])
            cx = unhav(e.args[0])
            res.check(any(s.op == 'fld' and s.a[1] == 'ctx' for s in subterms(cx)), key + '/hook-ctx', evloc(e), 'a hook is not run with the context it was registered with')


def hooks(res, P):
    (r, I, rets), = run(P, AM + 'registerHook')[:1]
    res.fn(r)
    adds = [e for e in I.evs if e.kind == 'call' and e.fn.split('::')[-1] in ('push_back', 'emplace_back')]
    if len(adds) != 1: raise Unk('registerHook')
    res.check(not adds[0].guard, 'hooks/register', evloc(adds[0]), 'a hook is registered only conditionally')
    byindex = any('size' in show(v) for _, v, _ in rets)
    for r, I, rets in run(P, AM + 'unregisterHook'):
        res.fn(r)
        for e in I.evs:
            if byindex and e.kind == 'call' and e.fn.split('::')[-1] in ('erase', 'pop_back', 'clear', 'resize'):
                res.bad('hooks/renumber', evloc(e), 'unregistering a hook removes its slot: identifiers handed out for later hooks then denote other hooks')
        ws = [e for e in I.evs if e.kind in ('write', 'call') and 'hooks_' in (str(e.objloc) + str(e.obj or ''))]
        hid = mk('param', 0, r['ps'][0]['n'])
        eff = [e for e in ws if contains(mk('x', *(tuple(e.args) + ((e.objloc,) if e.objloc is not None else ()))), hid)]
        res.check(bool(eff) or bool([e for e in ws if e.kind == 'call' and e.fn.split('::')[-1] == 'erase']), 'hooks/unregister', loc_of(r), 'unregistering does not affect the hook with the given identifier', sample='unregisterHook(hid)')


def nograd(res, P):
    cls = 'tinytorch::NoGradGuard'
    flag = [(k, v) for k, v in P.gvars.items() if k[0].startswith(cls + '::') and v.get('t') == 'bool']
    if len(flag) != 1: raise Unk('flag')
    res.check(flag[0][1].get('tls') == 1, 'nograd/thread', 'src/Tensor/NoGradGuard.cpp', 'the gradient mode is shared between threads: a guard in one thread switches recording off in another')
    G_ = mk('G', flag[0][0][0])
    ctor = [r for r in P.funcs.values() if r.get('cls') == cls and r.get('ctor') and not r['ps']]
    dtor = [r for r in P.funcs.values() if r.get('cls') == cls and r['n'].startswith('~')]
    if not ctor or not dtor: raise Unk('ctor/dtor')
    I = Interp(P)
    rets = I.run(ctor[0])
    res.fn(ctor[0])
    saved = None
    fin = rets[-1][0]
    for e in I.evs:
        if e.kind in ('write', 'init') and e.objloc.op == 'F':
            if e.args[0].op == 'glob' and e.args[0].a[0] == flag[0][0][0]: saved = e.objloc.a[1]
            elif cval(e.args[0]) is not None and saved is None and e.kind == 'write': pass
    res.check(saved is not None, 'nograd/save', loc_of(ctor[0]), 'NoGradGuard does not remember the mode it found')
    gw = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'G']
    res.check(bool(gw) and all(cval(e.args[0]) == 0 and not e.guard for e in gw), 'nograd/disable', loc_of(ctor[0]), 'NoGradGuard does not switch recording off')
    J = Interp(P)
    J.run(dtor[0])
    res.fn(dtor[0])
    dw = [e for e in J.evs if e.kind == 'write' and e.objloc.op == 'G']
    if saved is not None:
        ok = bool(dw) and guard_cover([e.guard for e in dw]) and all(e.args[0].op == 'fld' and e.args[0].a[1] == saved for e in dw)
        res.check(ok, 'nograd/restore', loc_of(dtor[0]), 'the end of a NoGradGuard does not restore the mode found at its start (nested guards)', sample='guard restores the saved mode')


def context(res, P):
    for nm in ('pushData', 'popData'):
        rs = P.by_name.get('tinytorch::AutogradContext::' + nm)
        if not rs: raise Broken(nm)
        I = Interp(P)
        rets = I.run(rs[0])
        res.fn(rs[0])
        calls = [(e.fn.split('::')[-1], e) for e in I.evs if e.kind == 'call' and e.objloc is not None and 'savedData' in str(e.objloc)]
        names = [n for n, e in calls]
        if nm == 'pushData':
            back = 'push_back' in names or 'emplace_back' in names
            front = 'push_front' in names or 'emplace_front' in names
            if not back and not front: raise Unk('push')
            pushed = 'back' if back else 'front'
        else:
            pf, pb = 'pop_front' in names, 'pop_back' in names
            if not pf and not pb: raise Unk('pop')
            popped = 'front' if pf else 'back'
            res.check(pushed != popped, 'context/fifo', loc_of(rs[0]), 'values saved for backward come back in reverse order')
            for _, v, _ in rets:
                u = unhav(v)
                ix = [s for s in subterms(u) if s.op == 'elem']
                if ix and popped == 'front': res.check(cval(ix[0].a[1]) == 0, 'context/front', loc_of(rs[0]), 'the value returned is not the one removed', sample='popData returns the removed front value')


def meta(res, P):
    (r, I, rets), = run(P, AM + 'setGradFn')[:1]
    res.fn(r)
    fn = mk('param', 0, r['ps'][0]['n'])
    w = {e.objloc.a[1]: e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F'}
    A = asserted(I)
    for f in ('gradFn_', 'weakOwner'):
        e = w.get(f)
        ok = e is not None and not [l for l in e.gl if l not in A]
        res.check(ok, 'meta/' + f, loc_of(r), 'attaching a function to a tensor does not set %s on every path' % f, sample='setGradFn sets ' + f)
    if w.get('gradFn_'): res.check(unhav(w['gradFn_'].args[0]) is fn, 'meta/fn', evloc(w['gradFn_']), 'a tensor is attached to another function than the given one')
    # requiresGrad and the metadata go together
    pol = Policy(opaque=lambda rec: rec['fn'].startswith(('tinytorch::Tensor::requiresGrad', 'tinytorch::AutogradMeta::')) or rec['fn'] == 'tinytorch::Tensor::setGradFn')
    for r, I, rets in run(P, 'tinytorch::Tensor::initAutogradMeta', pol):
        res.fn(r)
        rq = [t for e in I.evs for t, p in e.gl if t.op == 'call' and t.a[0].endswith('::requiresGrad')]
        if not rq: raise Unk('requiresGrad test')
        rq = rq[0]
        A = asserted(I)
        clear = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[1] == 'gradMeta_' and e.args[0].op in ('null',)]
        make = [e for e in I.evs if e.kind == 'write' and e.objloc.op == 'F' and e.objloc.a[1] == 'gradMeta_' and any(s.op == 'newp' for s in subterms(e.args[0]))]
        att = [e for e in I.evs if e.kind == 'call' and e.fn.endswith('::setGradFn')]
        res.check(all((rq, False) in e.guard for e in clear), 'init/clear', loc_of(r), 'the gradient state of a tensor that requires gradients is dropped')
        res.check(bool(make) and all((rq, True) in e.guard for e in make), 'init/make', loc_of(r), 'a tensor that requires gradients gets no gradient state')
        res.check(bool(att) and guard_cover([frozenset(l for l in e.guard if l not in A) for e in att], frozenset({(rq, True)})), 'init/attach', loc_of(r), 'a tensor that requires gradients is not attached to a function on every path')
        fnp = mk('param', 0, r['ps'][0]['n'])
        for e in att:
            v = unhav(e.args[0])
            if v.op == 'phi' and v.a[0] is fnp: v = v.a[1]
            res.check(v is fnp or (v.op == 'newp' and (fnp, False) in e.guard), 'init/fn', evloc(e), 'a tensor is attached to %s instead of the function that computed it' % show(v)[:60], sample='attach(fn or leaf)')
            lf = unhav(e.args[0])
            news = [s for s in subterms(lf) if s.op == 'newp']
            res.check(all('FuncLeaf' in s.a[0] for s in news), 'init/leaf', evloc(e), 'a tensor without a function becomes %s' % (news and show(news[0])[:60]))
    # entry points
    pol = Policy(opaque=lambda rec: rec['fn'].startswith(('tinytorch::AutogradMeta::', 'tinytorch::Scalar::')) or rec['fn'] in ('tinytorch::Tensor::shape', 'tinytorch::Tensor::dim', 'tinytorch::Tensor::requiresGrad', 'tinytorch::Tensor::scalar', 'tinytorch::Tensor::ones', 'tinytorch::Tensor::onesLike', 'tinytorch::Tensor::options', 'tinytorch::Tensor::defined') or rec.get('_disp'))
    for r, I, rets in run(P, 'tinytorch::Tensor::backward', pol):
        res.fn(r)
        bc = [e for e in I.evs if e.kind == 'call' and e.fn == AM + 'backward']
        res.check(len(bc) >= 1, 'entry/run', loc_of(r), 'Tensor::backward does not start the backward pass')
        for e in bc:
            if r['ps']:
                g = mk('param', 0, r['ps'][0]['n'])
                res.check(unhav(e.args[0]) is g, 'entry/grad', evloc(e), 'Tensor::backward propagates %s instead of the given gradient' % show(e.args[0])[:60])
                sh = [t for t, p in e.gl if any(s.op == 'call' and s.a[0].endswith('::shape') and s.a[1] is g for s in subterms(t))]
                res.check(bool(sh), 'entry/shape', evloc(e), 'Tensor::backward accepts a gradient of another shape')
            else:
                a = unhav(e.args[0])
                if a.op == 'call' and a.a[0].endswith('::scalar'): res.check(isnum(a.a[2][0], 1), 'entry/one', evloc(e), 'Tensor::backward() starts from %s instead of 1' % show(a.a[2][0]), sample='backward() seeds 1')
                elif not (a.op == 'call' and a.a[0].split('::')[-1] in ('ones', 'onesLike')): res.und('seed ' + show(a)[:60])
            rqs = [t for t, p in e.gl if p and t.op == 'call' and t.a[0].endswith('::requiresGrad')]
            res.check(bool(rqs), 'entry/requires', evloc(e), 'Tensor::backward runs on a tensor that does not require gradients')


def compound(res, P):
    """x op= y behaves as x = x op y for recorded operands"""
    n = 0
    for op in ('+=', '-=', '*=', '/='):
        for r in P.by_name.get('tinytorch::Tensor::operator' + op, []):
            pol = Policy(opaque=lambda rec: rec['fn'].startswith(FN) or (rec['fn'].startswith('tinytorch::Tensor::') and rec['n'] in ('requiresGrad', 'isLeaf', 'scalar', 'options', 'defined', 'shape')) or rec.get('_disp') or rec['fn'].startswith('tinytorch::function::'))
            I = Interp(P, pol)
            I.run(r)
            res.fn(r)
            n += 1
            want = {'+=': 'add', '-=': 'sub', '*=': 'mul', '/=': 'div'}[op]
            calls = [e for e in I.evs if e.kind == 'call' and e.fn.startswith('tinytorch::function::') and e.fn.split('::')[-1] in ('add', 'sub', 'mul', 'div')]
            calls += [e for e in I.evs if e.kind == 'call' and e.fn.startswith('tinytorch::Tensor::operator') and len(e.fn.split('operator')[1]) == 1]
            got = [e.fn.split('::')[-1] for e in calls]
            got = [{'operator+': 'add', 'operator-': 'sub', 'operator*': 'mul', 'operator/': 'div'}.get(x, x) for x in got]
            if len(got) != 1: raise Unk('compound ' + op)
            res.check(got[0] == want, 'compound/op%s' % op, evloc(calls[0]), 'x %s y computes %s' % (op, got[0]), sample='x %s y = %s(x, y)' % (op, want))
            adopt = [e for e in I.evs if e.kind == 'write' and ((e.objloc.op == 'F' and e.objloc.a[1] == 'gradMeta_') or e.objloc.op == 'D')]
            res.check(bool(adopt), 'compound/history%s' % op, loc_of(r), 'x %s y drops the recorded operation: gradients no longer reach its operands' % op)
    res.floor('compound_assignments', n, 8)
