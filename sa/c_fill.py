"""Fills and random draws: contents after every fill operator by its closed-form stores; every random number comes, once per element, from the shared seeded generator."""
from c_fused import *
from model import *

FSPECS = {}
G = 'tinytorch::RandomGeneratorCPU::'


def fspec(op):
    def f(c):
        FSPECS[op] = c
        return c
    return f


def val(rnd): return rnd.choice([-3, 2, 7])


@fspec('fill')
class Fill:
    inplace = True

    def gen(rnd, K): return {K.ps[0]: rshape(rnd, 0, 4)}, {K.ps[1]: val(rnd)}, {}

    def ref(m, K):
        s = m.shape(K.ps[0])
        return s, [m.params[K.ps[1]]] * math.prod(s)


@fspec('fillOffset')
class FillOffset:
    inplace = True

    def gen(rnd, K):
        t, v, o, c = K.ps
        s = rshape(rnd, 1, 3)
        n = math.prod(s)
        a = rnd.randint(0, n - 1)
        return {t: s, v: []}, {o: a, c: rnd.randint(0, n - a)}, {}

    def ref(m, K):
        t, v, o, c = K.ps
        s = m.shape(t)
        a, n = m.params[o], m.params[c]
        return s, [m.load(v, 0) if a <= i < a + n else m.load(t, i) for i in range(math.prod(s))]


class Masked:
    def ref(m, K, t=0):
        t, k, v = K.ps[-3:]
        s = m.shape(t)
        return s, [m.params[v] if m.load(k, i) else m.load(t, i) for i in range(math.prod(s))]

    def gen(rnd, K):
        t, k, v = K.ps[-3:]
        s = rshape(rnd, 0, 4)
        return {p: s for p in K.ps[:-1]}, {v: val(rnd)}, {k: (False, 2)}


@fspec('fillMasked')
class FillMasked(Masked): pass


@fspec('fillMaskedInplace')
class FillMaskedInplace(Masked): inplace = True


@fspec('fillMaskedOut')
class FillMaskedOut(Masked): inplace = True


@fspec('fillLinSpace')
class LinSpace:
    inplace = True

    def gen(rnd, K):
        t, a, b, n = K.ps
        s = [rnd.dim(1, 6)]
        return {t: s}, {a: val(rnd), b: val(rnd), n: s[0]}, {}

    def ref(m, K):
        t, a, b, n = K.ps
        return m.shape(t), [m.params[a] + i * m.params[b] for i in range(m.shape(t)[0])]


class Rand:
    inplace = True

    def gen(rnd, K): return {K.ps[0]: rshape(rnd, 0, 3)}, {p: rnd.choice([.25, .5, .75, 0, 1]) + i for i, p in enumerate(K.ps[1:])}, {}

    def mk(dist):
        class R(Rand):
            def ref(m, K):
                s = m.shape(K.ps[0])
                return s, [drawn(dist, [float(m.params[p]) for p in K.ps[1:]])] * math.prod(s)
        return R


FSPECS['fillRandUniform'] = Rand.mk('uniform_real_distribution')
FSPECS['fillRandNormal'] = Rand.mk('normal_distribution')
FSPECS['fillRandBernoulli'] = Rand.mk('bernoulli_distribution')


@fspec('dropout')
class DropoutK:
    def gen(rnd, K): return {K.ps[0]: rshape(rnd, 0, 3)}, {K.ps[1]: rnd.choice([.25, .5, .75])}, {}

    def ref(m, K):
        t, p = K.ps
        s = m.shape(t)
        return s, [m.load(t, i) * drawn('bernoulli_distribution', [m.params[p]]) / m.params[p] for i in range(math.prod(s))]


# ---- draws

ENGINES = ('std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::default_random_engine', 'std::mt19937', 'std::minstd_rand', 'std::subtract_with_carry_engine')


def isengine(t): return strip_cvref(t).startswith(ENGINES)


def iscopy(t): return isengine(t) and '&' not in t and '*' not in t


def draws_of(I):
    """(event, generator term) of every call that consumes random numbers"""
    for e in I.evs:
        if e.kind != 'call': continue
        if '_distribution' in e.fn and e.fn.endswith('operator()') and e.args: yield e, e.args[0]
        elif e.fn.startswith('std::shuffle') and len(e.args) == 3: yield e, e.args[2]
        elif e.fn.startswith('std::') and e.fn.endswith('_engine::operator()') and e.obj is not None: yield e, e.obj


def check_fill(res):
    P = res.p
    O = Ops(P)
    res.rule = 'contents after a fill; random numbers come from the shared generator, one draw per element'
    k = check_kernels(res, O, FSPECS)
    res.floor('kernels', k, 30)
    n = 0
    users = {}
    for (o, dev, dt), r in sorted(O.table.items(), key=lambda kv: str(kv[0])):
        if dev != 'CPU' or dt != 'Float32': continue
        rec = r.fn
        if not reaches_draw(P, rec): continue
        users[rec['u']] = (o, rec)
    for u, (o, rec) in sorted(users.items()):
        with res.instance('draws of %s' % o):
            I = Interp(P, Policy(opaque=lambda r: r['fn'].startswith(KERNEL_OPAQUE)))
            I.run(rec)
            res.fn(rec)
            copies = engine_copies(I)
            ds = list(draws_of(I))
            for e, g in ds:
                n += 1
                src = gen_source(I, g)
                if src is None and not copies: continue
                if not res.check(src == 'shared' and not copies, '%s/generator' % o, evloc(copies[0] if copies else e),
                                 '%s draws from %s instead of the shared generator: every call repeats the same numbers' % (o, 'a copy of the generator' if copies else src), '%s draws from the shared generator' % o): break
            # hidden state: a normal distribution keeps a spare value between calls
            for e, g in ds:
                o_ = e.obj
                while o_ is not None and o_.op in ('mut', 'mutd'): o_ = o_.a[0]
                if o_ is not None and o_.op == 'hav': o_ = e.objloc
                if o_ is not None and o_.op in ('G', 'glob') and 'normal_distribution' in e.fn:
                    reset = any(x.kind == 'call' and x.fn.endswith('_distribution::reset') and x.seq < e.seq for x in I.evs)
                    res.check(reset, '%s/state' % o, evloc(e), '%s draws through a distribution object that outlives the call and keeps a spare value: reseeding the generator does not reset it' % o, '%s: distribution is local' % o)
            # one draw per element
            if o in FSPECS:
                K = Kern(P, rec, esz=4, live=True)
                for s in K.stores:
                    if s.err is not None: continue
                    for e in K.I.evs:
                        if e.kind == 'call' and e.ret is not None and draw(e.ret) is not None:
                            used = any(draw(x) is not None for x in subterms(s.val))
                            if used: res.check(tuple(e.loops) == tuple(s.e.loops), '%s/once' % o, evloc(e), '%s uses one draw for several elements' % o, '%s: one draw per element' % o)
    res.floor('draws', n, 4)
    generator(res, P)


def reaches_draw(P, rec, depth=4, seen=None):
    seen = seen if seen is not None else set()
    if rec['u'] in seen: return False
    seen.add(rec['u'])
    for n in walk(rec['body']):
        if n['k'] not in ('Call', 'MCall', 'OpCall', 'Op', 'CallOp') and 'fn' not in n: continue
        f = n.get('fn') or ''
        if '_distribution' in f or f.startswith('std::shuffle') or f == G + 'getGenerator': return True
        if depth and f.startswith('tinytorch::') and n.get('u') in P.funcs and not P.funcs[n['u']].get('_disp') and reaches_draw(P, P.funcs[n['u']], depth - 1, seen): return True
    return False


def engine_copies(I):
    out = []
    for e in I.evs:
        if e.kind == 'decl' and e.args and iscopy((e.node or {}).get('t', '')) and any(x.op == 'call' and x.a[0] == G + 'getGenerator' for x in subterms(e.args[0])): out.append(e)
    return out


def gen_source(I, g):
    """the shared generator reached through references, or something else"""
    for x in subterms(g):
        if x.op == 'call' and x.a[0] == G + 'getGenerator': return 'shared'
        if x.op in ('G', 'glob') and str(x.a[0]).startswith(G + 'randomEngine_'): return 'shared'
    if any(x.op in ('param', 'this') for x in subterms(g)): return None
    return 'another generator'


SEEDERS = (G + 'setSeed', 'tinytorch::manualSeed')


def isgen(t): return any(x.op in ('G', 'glob') and x.a[0] == G + 'randomEngine_' for x in subterms(t)) if t is not None else False


def isseed(t): return t is not None and t.op in ('G', 'glob') and t.a[0] == G + 'seed_'


def generator(res, P):
    """seeding: setSeed records the seed and seeds the engine with it, getGenerator leaves a seeded engine alone, nothing in the library reseeds it"""
    def engine_changes(I):
        for e in I.evs:
            if e.kind == 'write' and e.objloc is not None and isgen(e.objloc): yield e, None
            elif e.kind == 'call' and e.objloc is not None and isgen(e.objloc) and e.fn.split('::')[-1] in ('seed', 'discard', 'operator()', 'operator='): yield e, e.fn.split('::')[-1]
    for rec in P.by_name.get('tinytorch::manualSeed', []):
        with res.instance('manualSeed'):
            I = Interp(P, Policy())
            I.run(rec)
            res.fn(rec)
            seed = mk('param', 0, rec['ps'][0]['n'])
            ch = list(engine_changes(I))
            w = [e for e in I.evs if e.kind == 'write' and isseed(e.objloc)]
            ok = [e for e, k in ch if k == 'seed' and e.args and strip(e.args[0]) is seed and not e.gl]
            res.check(bool(ok) and ch[-1][0] in ok, 'manualSeed/engine', loc_of(rec), 'manualSeed does not leave the engine seeded with its argument', 'manualSeed seeds the engine with its argument')
            ok = [e for e in w if e.args and strip(e.args[0]) is seed and not e.gl]
            res.check(bool(ok) and w[-1] in ok, 'manualSeed/seed', loc_of(rec), 'manualSeed does not record its argument: the next draw reseeds the engine from the random device', 'manualSeed records the seed')
    for rec in P.by_name.get(G + 'getGenerator', []):
        with res.instance('getGenerator'):
            I = Interp(P, Policy())
            rets = I.run(rec)
            res.fn(rec)
            t = rec.get('rt') or rec.get('ret') or ''
            for e, k in engine_changes(I):
                seeded = [p for c, p in e.gl if isseed(base_(c))]
                res.check(False in [p ^ neg_(c) for c, p in e.gl if isseed(base_(c))], 'getGenerator/reseed', evloc(e), 'getGenerator changes the state of an engine that was seeded', 'a seeded engine is left alone')
            w = [e for e in I.evs if e.kind == 'write' and isseed(e.objloc)]
            res.check(not w, 'getGenerator/seed', evloc(w[0]) if w else loc_of(rec), 'getGenerator changes the recorded seed', 'the recorded seed is left alone')
            for r in rets:
                if r[1] is not None: res.check(isgen(r[1]) and r[1].op in ('addr', 'addrof', 'deref', 'mut'), 'getGenerator/shared', loc_of(rec), 'getGenerator does not return a reference to the shared engine', 'the shared engine is returned by reference')
    n = 0
    for rec in P.funcs.values():
        if not rec['fn'].startswith('tinytorch::') or rec['fn'] in SEEDERS: continue
        for x in walk(rec['body']):
            f = x.get('fn')
            if f in SEEDERS:
                res.bad('reseed/' + rec['fn'], loc_of(rec, x.get('l')), '%s reseeds the global generator' % rec['fn'])
            if x['k'] == 'Var' and iscopy(x.get('t', '')):
                n += 1
                i = x.get('init') or {}
                res.check(not any(y.get('fn') == G + 'getGenerator' for y in walk(i) if 'fn' in y) or seeds_only(i), 'copy/' + rec['fn'], loc_of(rec, x.get('l')), '%s copies the shared generator: what it draws is drawn again by the next user' % rec['fn'], 'local engine of %s is not a copy of the shared one' % rec['fn'])
            elif f == G + 'getGenerator': n += 1
        for q in rec.get('ps') or []:
            if iscopy(q.get('t', '')): res.bad('copy/' + rec['fn'], loc_of(rec), '%s takes a generator by value' % rec['fn'])
    res.floor('generator uses', n, 6)


def seeds_only(i):
    """an engine constructed from a number drawn from the shared one"""
    while i.get('k') in ('ICast', 'Cast', 'Construct', 'Temp', 'Bind', 'Paren', 'ExprWithCleanups') and not i.get('fn'):
        t = i.get('t', '')
        if i['k'] == 'Construct' and i.get('a') and not isengine(i['a'][0].get('t', '')): return True
        i = i.get('e') or (i.get('a') or [{}])[0]
    return i.get('fn') != G + 'getGenerator'


def strip(t):
    while t.op in ('cast', 'icast', 'toint', 'mut', 'mutd', 'bool', 'toopt') or t.op == 'new' and t.a[0].startswith('std::optional') and len(t.a[1]) == 1: t = t.a[1][0] if t.op == 'new' else t.a[-1] if t.op == 'cast' else t.a[0]
    return t


def neg_(c): return c.op == 'not'


def base_(c):
    if c.op == 'not': c = c.a[0]
    while c.op in ('bool', 'mut') or c.op == 'call' and c.a[0].endswith('has_value') and c.a[1] is not None: c = c.a[1] if c.op == 'call' else c.a[0]
    return c
